From 76bdbf73b0d398419ce91fc890e12697954daec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:24 +0000
Subject: [PATCH 01/20] fix: text and csv exports to a file name without a
 directory

---
 festim/exports/derived_quantities/derived_quantities.py | 2 +-
 festim/exports/txt_export.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index dec5644..42eec15 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -147,7 +147,7 @@ class DerivedQuantities(list):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 6137b8b..283fa79 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -201,7 +201,7 @@ class TXTExport(festim.Export):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # if steady, add the corresponding label
-- 
2.43.0


From 74875c9f4a997da167809aed9d7f75e92bc9b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:24 +0000
Subject: [PATCH 02/20] fix: XDMFExport with mode 'last' in steady state
 simulations

---
 festim/exports/xdmf_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 14383fa..17a68e1 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -152,8 +152,9 @@ class XDMFExport(Export):
         Returns:
             bool: True if export should be exported, else False
         """
-        if self.mode == "last" and np.isclose(t, final_time, atol=0):
-            return True
+        if self.mode == "last":
+            # final_time is None in steady state: the only solve is the last
+            return final_time is None or np.isclose(t, final_time, atol=0)
         elif isinstance(self.mode, int):
             if nb_iterations % self.mode == 0:
                 return True
-- 
2.43.0


From 521b5dfa39e7825994a01d47785c964902e1d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:24 +0000
Subject: [PATCH 03/20] fix: initial conditions reach the named trap when trap
 ids are not 1..n in order

---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 24cc3f5..d6162bf 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -204,7 +204,7 @@ class HTransportProblem:
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
             else:
-                trap = self.traps.get_trap(component)
+                trap = self.traps[component - 1]
                 trap.initialise(
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
-- 
2.43.0


From 1dbeeacecd113b94ae2f5be8a78244b52e65d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:41 +0000
Subject: [PATCH 04/20] fix: boundary conditions with a field given as "0",
 "1"... were dropped or crashed

---
 festim/boundary_conditions/boundary_condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/boundary_conditions/boundary_condition.py b/festim/boundary_conditions/boundary_condition.py
index 2f23ebc..4e6335e 100644
--- a/festim/boundary_conditions/boundary_condition.py
+++ b/festim/boundary_conditions/boundary_condition.py
@@ -15,6 +15,9 @@ class BoundaryCondition:
 
         if field == "solute":
             self.field = 0
+        elif isinstance(field, str) and field.isdigit():
+            # "0", "1"... are accepted as 0, 1...
+            self.field = int(field)
         else:
             self.field = field
         self.expression = None
-- 
2.43.0


From 46b48a64cbeb8737f6d99c7113fd419d0cc22550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:41 +0000
Subject: [PATCH 05/20] fix: CustomDirichlet with conservation of chemical
 potential

---
 festim/boundary_conditions/dirichlets/custom_dc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/custom_dc.py b/festim/boundary_conditions/dirichlets/custom_dc.py
index fa84daf..5481c60 100644
--- a/festim/boundary_conditions/dirichlets/custom_dc.py
+++ b/festim/boundary_conditions/dirichlets/custom_dc.py
@@ -39,7 +39,7 @@ class CustomDirichlet(DirichletBC):
             **self.prms,
         )
         self.expression = value_BC
-        self.sub_expressions = self.prms.values()
+        self.sub_expressions = list(self.prms.values())
 
     def convert_prms(self):
         """Creates Expressions or Constant for all parameters"""
-- 
2.43.0


From f663d67b34169f16707be873ed27a16f4f8d5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:41 +0000
Subject: [PATCH 06/20] fix: time-dependent parameters of extrinsic traps were
 never updated

---
 festim/concentration/traps/extrinsic_trap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/traps/extrinsic_trap.py b/festim/concentration/traps/extrinsic_trap.py
index 8eeef4d..be2fb06 100644
--- a/festim/concentration/traps/extrinsic_trap.py
+++ b/festim/concentration/traps/extrinsic_trap.py
@@ -1,5 +1,5 @@
 from festim import Trap, as_constant_or_expression, festim_print
-from fenics import NewtonSolver, MPI
+from fenics import NewtonSolver, MPI, Expression, UserExpression
 
 
 class ExtrinsicTrapBase(Trap):
@@ -51,7 +51,11 @@ class ExtrinsicTrapBase(Trap):
 
         self.newton_solver = None
         for name, val in kwargs.items():
-            setattr(self, name, as_constant_or_expression(val))
+            prm = as_constant_or_expression(val)
+            setattr(self, name, prm)
+            if isinstance(prm, (Expression, UserExpression)):
+                # needs to be updated with time
+                self.sub_expressions.append(prm)
         self.density_previous_solution = None
         self.density_test_function = None
 
-- 
2.43.0


From a8b1ce02729103d2414a46c08e7cf7fe5ff3407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:41 +0000
Subject: [PATCH 07/20] fix: export schedule and XDMF files of a previous run
 leaked into the next one

---
 festim/generic_simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb556f..8faca39 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -324,6 +324,7 @@ class Simulation:
         set_log_level(self.log_level)
 
         self.t = 0  # reinitialise t to zero
+        self.exports.nb_iterations = 0  # and the export schedule
 
         if self.settings.chemical_pot:
             self.mobile = festim.Theta()
@@ -386,6 +387,9 @@ class Simulation:
         self.h_transport_problem.initialise(self.mesh, self.materials, self.dt)
 
         for export in self.exports:
+            if isinstance(export, festim.XDMFExport):
+                export.append = False
+
             if isinstance(export, festim.DerivedQuantities):
                 for q in export:
                     # raise warning if the derived quantities don't match the type of mesh
-- 
2.43.0


From b4400b77956c62d2f56ba9f7959190fcee0843df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:58 +0000
Subject: [PATCH 08/20] fix: a model with a transient heat problem could not be
 initialised twice

---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index c520463..8a23afa 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -123,8 +123,8 @@ class HeatTransferProblem(festim.Temperature):
                         )
             else:
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
-                self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
-                self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+                T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
+                self.T_n.assign(f.interpolate(T_ini, V))
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
-- 
2.43.0


From e2e0161b6c66a60c2dddc94d48fdb81566c67d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:10 +0000
Subject: [PATCH 09/20] fix: temperature at initialisation and previous
 temperature seen by the H problem with a transient heat problem

---
 festim/temperature/temperature_solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 8a23afa..7e1206e 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -125,6 +125,7 @@ class HeatTransferProblem(festim.Temperature):
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
                 T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
                 self.T_n.assign(f.interpolate(T_ini, V))
+            self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
@@ -260,6 +261,9 @@ class HeatTransferProblem(festim.Temperature):
             t (float): the time
         """
         if self.transient:
+            # T_n is needed by the H problem (chemical potential), so it has to be
+            # kept until the next step
+            self.T_n.assign(self.T)
             festim.update_expressions(self.sub_expressions, t)
             # Solve heat transfers
             dT = f.TrialFunction(self.T.function_space())
@@ -272,7 +276,5 @@ class HeatTransferProblem(festim.Temperature):
             self.newton_solver.solve(problem, self.T.vector())
             f.end()
 
-            self.T_n.assign(self.T)
-
     def is_steady_state(self):
         return not self.transient
-- 
2.43.0


From 39d1988e959e33f7f2ef71e44bc6168090762929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:53 +0000
Subject: [PATCH 10/20] fix: material with a single border given as a nested
 list

---
 festim/materials/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c88c7be..e8a5b69 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -256,7 +256,7 @@ class Materials(list):
                 return material.id
             # else find the correct material
             else:
-                if isinstance(material.borders[0], list) and len(material.borders) > 1:
+                if isinstance(material.borders[0], list):
                     list_of_borders = material.borders
                 else:
                     list_of_borders = [material.borders]
-- 
2.43.0


From e1d893ebc38a9eee59aede914875eed916850716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:53 +0000
Subject: [PATCH 11/20] fix: after a diverged solve the stepsize was changed
 twice

---
 festim/stepsize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index f601069..1d65393 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -102,7 +102,7 @@ class Stepsize:
                 self.value.assign(float(self.value) / change_ratio)
                 if float(self.value) < dt_min:
                     raise ValueError("stepsize reached minimal value")
-            if nb_it < 5:
+            elif nb_it < 5:
                 self.value.assign(float(self.value) * change_ratio)
             else:
                 self.value.assign(float(self.value) / change_ratio)
-- 
2.43.0


From d6f6f93dd8bef41d80d8d44f50abe2137c4a1c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:53 +0000
Subject: [PATCH 12/20] fix: endless loop when the solver diverges with a
 constant stepsize

---
 festim/h_transport_problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index d6162bf..00e4a3c 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -339,6 +339,9 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
+            if not converged and dt.adaptive_stepsize is None:
+                # solving again with the same stepsize would loop forever
+                raise ValueError("Solver diverged but the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
 
-- 
2.43.0


From bdc51e2976b65b530858c9eb9d1a5f8413fe7da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:53 +0000
Subject: [PATCH 13/20] fix: a milestone could be jumped when the previous one
 was reached from below within rounding

---
 festim/stepsize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 1d65393..282bb18 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -134,6 +134,8 @@ class Stepsize:
         if self.milestones is None:
             return None
         for milestone in self.milestones:
-            if current_time < milestone:
+            if current_time < milestone and not np.isclose(
+                current_time, milestone, atol=0
+            ):
                 return milestone
         return None
-- 
2.43.0


From 631f1544ec11217a7fc86708c4db56511db44f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:19 +0000
Subject: [PATCH 14/20] fix: the first step could jump over milestones and the
 final time

---
 festim/generic_simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 8faca39..beb0773 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -479,6 +479,11 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
+        # the first step must not jump over a milestone or the final time
+        for limit in [self.dt.next_milestone(self.t), self.settings.final_time]:
+            if limit is not None and self.t + float(self.dt.value) > limit:
+                self.dt.value.assign(limit - self.t)
+
         #  Time-stepping
         festim.festim_print("Time stepping...")
         while self.t < self.settings.final_time and not np.isclose(
-- 
2.43.0


From 8315fab6d2c2b19f0d47634b96fa0bff2e1baeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:19 +0000
Subject: [PATCH 15/20] fix: in-place addition bypassed the type check of
 Materials, Traps, Exports and DerivedQuantities

---
 festim/concentration/traps/traps.py                     | 4 ++++
 festim/exports/derived_quantities/derived_quantities.py | 4 ++++
 festim/exports/exports.py                               | 4 ++++
 festim/materials/materials.py                           | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index f99cec5..cafa4d1 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -35,6 +35,10 @@ class Traps(list):
         else:
             super().extend(self._validate_trap(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_trap(self, value):
         if isinstance(value, festim.Trap):
             return value
diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 42eec15..80df9d0 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -77,6 +77,10 @@ class DerivedQuantities(list):
         else:
             super().extend(self._validate_derived_quantity(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_derived_quantity(self, value):
         if isinstance(value, DerivedQuantity):
             return value
diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 989a4ae..394065b 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -36,6 +36,10 @@ class Exports(list):
         else:
             super().extend(self._validate_export(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_export(self, value):
         if isinstance(value, festim.Export) or isinstance(
             value, festim.DerivedQuantities
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index e8a5b69..c39ed72 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -43,6 +43,10 @@ class Materials(list):
         else:
             super().extend(self._validate_material(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_material(self, value):
         if isinstance(value, festim.Material):
             return value
-- 
2.43.0


From 6ae4429e207f662742842e6e4120d6853e9a3805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:37 +0000
Subject: [PATCH 16/20] fix: surface kinetics with conservation of chemical
 potential compared a concentration with the previous chemical potential

---
 festim/concentration/mobile.py |  6 +++++-
 festim/concentration/theta.py  | 13 +++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index af57b0d..71d6934 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -219,7 +219,7 @@ class Mobile(Concentration):
                     if isinstance(bc, SurfaceKinetics):
                         bc.create_form(
                             solute,
-                            self.previous_solution,
+                            self.previous_mobile_concentration(),
                             self.test_function,
                             T,
                             ds,
@@ -242,3 +242,7 @@ class Mobile(Concentration):
 
     def mobile_concentration(self):
         return self.solution
+
+    def previous_mobile_concentration(self):
+        """Returns the hydrogen concentration at the previous time step"""
+        return self.previous_solution
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 51fb816..788a1c5 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,5 @@
 from festim import Mobile, k_B
+from festim.materials.materials import ArheniusCoeff
 import fenics as f
 
 
@@ -81,6 +82,18 @@ class Theta(Mobile):
             + self.materials.sievert_marker * sieverts_to_concentration
         )
 
+    def previous_mobile_concentration(self):
+        """Returns the hydrogen concentration at the previous time step
+        c_n=theta_n*S(T_n) or c_n=theta_n**2*S(T_n)
+        """
+        S_n = ArheniusCoeff(
+            self.materials, self.volume_markers, self.T.T_n, "S_0", "E_S", degree=2
+        )
+        return (
+            self.materials.henry_marker * self.previous_solution**2 * S_n
+            + self.materials.sievert_marker * self.previous_solution * S_n
+        )
+
     def post_processing_solution_to_concentration(self):
         """Converts the post_processing_solution from theta to mobile
         concentration.
-- 
2.43.0


From 0ebafb1b468b7ffd1bec84bc53b3d303a1305e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:30 +0000
Subject: [PATCH 17/20] fix: extrinsic trap densities are advanced with the
 stepsize of the step being solved, not the one adapted for the next step

---
 festim/h_transport_problem.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 00e4a3c..a112b81 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -339,18 +339,19 @@ class HTransportProblem:
         while converged is False:
             self.u.assign(u_)
             nb_it, converged = self.solve_once()
+            if converged:
+                # with the stepsize of this step, before it is adapted
+                # Update previous solutions
+                self.update_previous_solutions()
+
+                # Solve extrinsic traps formulation
+                self.traps.solve_extrinsic_traps()
             if not converged and dt.adaptive_stepsize is None:
                 # solving again with the same stepsize would loop forever
                 raise ValueError("Solver diverged but the stepsize is not adaptive.")
             if dt.adaptive_stepsize is not None or dt.milestones is not None:
                 dt.adapt(t, nb_it, converged)
 
-        # Update previous solutions
-        self.update_previous_solutions()
-
-        # Solve extrinsic traps formulation
-        self.traps.solve_extrinsic_traps()
-
     def solve_once(self):
         """Solves non linear problem
 
-- 
2.43.0


From bf9bd5d9bf72c63984409683a6e7ac5094247ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:55 +0000
Subject: [PATCH 18/20] fix: a steady state that did not converge was exported
 before the error was raised

---
 festim/generic_simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb0773..9dfa24e 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -497,8 +497,9 @@ class Simulation:
 
         nb_iterations, converged = self.h_transport_problem.solve_once()
 
-        # Post processing
-        self.run_post_processing()
+        # Post processing (a state that did not converge is not exported)
+        if converged:
+            self.run_post_processing()
         elapsed_time = round(self.timer.elapsed()[0], 1)
 
         # print final message
-- 
2.43.0


From 5d3f9318b530c6811f75f70f8e3e32b05c4a0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:41 +0000
Subject: [PATCH 19/20] fix: derived quantities of the retention in cylindrical
 and spherical geometry crashed when traps exist

---
 .../derived_quantities/average_surface.py     | 10 +++++++---
 .../derived_quantities/average_volume.py      | 20 +++++++++++++------
 .../derived_quantities/total_surface.py       | 20 +++++++++++++------
 .../derived_quantities/total_volume.py        | 20 +++++++++++++------
 4 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/festim/exports/derived_quantities/average_surface.py b/festim/exports/derived_quantities/average_surface.py
index c56e0d7..0e40fc9 100644
--- a/festim/exports/derived_quantities/average_surface.py
+++ b/festim/exports/derived_quantities/average_surface.py
@@ -89,9 +89,13 @@ class AverageSurfaceCylindrical(AverageSurface):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            try:
+                mesh = (
+                    self.function.function_space().mesh()
+                )  # get the mesh from the function
+            except AttributeError:
+                # function is a sum of functions (e.g. retention)
+                mesh = self.ds.subdomain_data().mesh()
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
 
diff --git a/festim/exports/derived_quantities/average_volume.py b/festim/exports/derived_quantities/average_volume.py
index 6428c0e..34e5d66 100644
--- a/festim/exports/derived_quantities/average_volume.py
+++ b/festim/exports/derived_quantities/average_volume.py
@@ -88,9 +88,13 @@ class AverageVolumeCylindrical(AverageVolume):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            try:
+                mesh = (
+                    self.function.function_space().mesh()
+                )  # get the mesh from the function
+            except AttributeError:
+                # function is a sum of functions (e.g. retention)
+                mesh = self.dx.subdomain_data().mesh()
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
 
@@ -131,9 +135,13 @@ class AverageVolumeSpherical(AverageVolume):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            try:
+                mesh = (
+                    self.function.function_space().mesh()
+                )  # get the mesh from the function
+            except AttributeError:
+                # function is a sum of functions (e.g. retention)
+                mesh = self.dx.subdomain_data().mesh()
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
 
diff --git a/festim/exports/derived_quantities/total_surface.py b/festim/exports/derived_quantities/total_surface.py
index db8c1c7..c02afee 100644
--- a/festim/exports/derived_quantities/total_surface.py
+++ b/festim/exports/derived_quantities/total_surface.py
@@ -125,9 +125,13 @@ class TotalSurfaceCylindrical(TotalSurface):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            try:
+                mesh = (
+                    self.function.function_space().mesh()
+                )  # get the mesh from the function
+            except AttributeError:
+                # function is a sum of functions (e.g. retention)
+                mesh = self.ds.subdomain_data().mesh()
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
 
@@ -209,9 +213,13 @@ class TotalSurfaceSpherical(TotalSurface):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            try:
+                mesh = (
+                    self.function.function_space().mesh()
+                )  # get the mesh from the function
+            except AttributeError:
+                # function is a sum of functions (e.g. retention)
+                mesh = self.ds.subdomain_data().mesh()
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
 
diff --git a/festim/exports/derived_quantities/total_volume.py b/festim/exports/derived_quantities/total_volume.py
index b197ca3..fa7b9fe 100644
--- a/festim/exports/derived_quantities/total_volume.py
+++ b/festim/exports/derived_quantities/total_volume.py
@@ -124,9 +124,13 @@ class TotalVolumeCylindrical(TotalVolume):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            try:
+                mesh = (
+                    self.function.function_space().mesh()
+                )  # get the mesh from the function
+            except AttributeError:
+                # function is a sum of functions (e.g. retention)
+                mesh = self.dx.subdomain_data().mesh()
             rthetaz = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaz[0]  # only care about r here
 
@@ -206,9 +210,13 @@ class TotalVolumeSpherical(TotalVolume):
     def compute(self):
 
         if self.r is None:
-            mesh = (
-                self.function.function_space().mesh()
-            )  # get the mesh from the function
+            try:
+                mesh = (
+                    self.function.function_space().mesh()
+                )  # get the mesh from the function
+            except AttributeError:
+                # function is a sum of functions (e.g. retention)
+                mesh = self.dx.subdomain_data().mesh()
             rthetaphi = f.SpatialCoordinate(mesh)  # get the coordinates from the mesh
             self.r = rthetaphi[0]  # only care about r here
 
-- 
2.43.0


From f9f5dd9fb64c11e7d8f649cd9dfc8d61bf6dc0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:41 +0000
Subject: [PATCH 20/20] fix: TrapDensityXDMF exported the first density in
 every material of a trap with per-material densities

---
 festim/exports/trap_density_xdmf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 2da2463..f691c4b 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -28,8 +28,12 @@ class TrapDensityXDMF(XDMFExport):
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
-        for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.id)
+        for i, mat in enumerate(self.trap.materials):
+            if type(self.trap.k_0) is list:
+                density = self.trap.density[i]
+            else:
+                density = self.trap.density[0]
+            F -= f.inner(density, v) * dx(mat.id)
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
-- 
2.43.0

