From 3af7beb1b814e24acd1178a0a3adbe9b42125588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 01/13] fix: main.py passes an argument that
 AdaptivePartitioner.solve does not take

---
 main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index 4742c33..25f3089 100644
--- a/main.py
+++ b/main.py
@@ -91,8 +91,7 @@ elif METHOD == 3:
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
         method.solve(partitionBigMFinder, use_merger=False,
-                     use_big_M=True, big_m_method="belotti",
-                     use_balancing=False)
+                     use_big_M=True, big_m_method="belotti")
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,7 +106,7 @@ elif METHOD == 4:
     try:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
-                     use_balancing=False, use_lazy=True)
+                     use_lazy=True)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From d2588b61c50dce6ea8b36324f1230a92f8387cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 02/13] fix: give the random and cost methods a code in the
 result file

---
 src/Informer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Informer.py b/src/Informer.py
index 57e12ef..f9a8eeb 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -34,6 +34,8 @@ class Informer():
                          projection_method):
         counter_dict = {
             "counter": 1,
+            "random": 2,
+            "cost": 3,
             "rescaled_max_violation": 5
             }
         method_details = [counter_dict[split_method],
-- 
2.43.0


From 51b5bb3d567c1846182d4459e19158b3b6e39666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 03/13] fix: MilpSolver cannot write its results when it uses
 no big M

---
 src/solver/MilpSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index ccf80ce..8c98b11 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -14,6 +14,7 @@ class MilpSolver(Solver):
         super(MilpSolver, self).__init__(chance_instance, time_limit, gap)
         self.big_m_finder = BigMFinder(self.chance_instance)
         self.upper_bounder = UpperBounder(None, None, None)
+        self.big_m_time = 0.0  # no big M is computed by default
 
     #   - - - Private methods - - -
     def _compute_big_m(self, big_m_method="belotti"):
-- 
2.43.0


From c43396cf03395aaed751bba7e79895809839d1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 04/13] fix: result file does not tell the Belotti and Song big
 M apart

---
 src/solver/MilpSolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 8c98b11..bac477d 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -42,8 +42,8 @@ class MilpSolver(Solver):
     def _save_computation_parameters(self, use_big_m, big_m_method):
         self.use_big_M = use_big_m*1 + (not use_big_m)*0
         self.big_m_method = (1*(big_m_method == "naive")
-                             + 2*(big_m_method == "ahmed_belotti")
-                             + 3*(big_m_method == "qiu_et_al"))
+                             + 2*(big_m_method == "belotti")
+                             + 3*(big_m_method == "song"))
 
     #   - - - Public methods - - -
     def solve(self, use_big_m=True, big_m_method="naive",
-- 
2.43.0


From 6c1d7e3e663a199c0aa554b1b783d3e7c2841e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 05/13] fix: result file name read by the export differs from
 the one written

---
 src/export/format_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/format_results.py b/src/export/format_results.py
index 52fd8a3..3eeeacf 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -18,7 +18,7 @@ def write_table(file_location, table):
 def read_single_experiment(input_path, i, s, j, e, use_continuous, m):
     file_location = (
           input_path + i + "-" +
-          str(s) + "-" + str(j) + "-" + str(int(e*100)) + "-" +
+          str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-" +
           str(use_continuous) + "-" + str(m) + ".csv")
     # Check that file exist, if not print missing file
     try:
-- 
2.43.0


From 61bb9c3011ba846fa22c0a58becf7ed788c0a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 06/13] fix: building the model past the time limit gives a
 negative TimeLimit

---
 src/solver/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index a1b9c89..2b5d0d4 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -108,7 +108,7 @@ class Solver():
 
         # Manage time left for solver
         end_build = time.time()
-        real_time_limit = time_limit - (end_build - start_build)
+        real_time_limit = max(time_limit - (end_build - start_build), 0)
         print('Time left: ', real_time_limit)
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
 
-- 
2.43.0


From 85909debb81fc2e847cfac85e8b75a07e1670922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 07/13] fix: subset costs used as upper bounds are only solved
 to a 1e-4 gap

---
 src/Evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Evaluator.py b/src/Evaluator.py
index 07631fd..0de61cd 100644
--- a/src/Evaluator.py
+++ b/src/Evaluator.py
@@ -1,5 +1,6 @@
 from src.optim.DeterModel import DeterModel
 from math import floor
+from gurobipy import GRB
 
 
 class Evaluator():
@@ -32,6 +33,8 @@ class Evaluator():
         """
         deterministicModel = DeterModel(self.chance_instance)
         deterministicModel.build(subset)
+        # Subset costs are used as upper bounds: solve to optimality
+        deterministicModel.grb_model.setParam(GRB.Param.MIPGap, 1e-8)
         deterministicModel.solve()
         subset_cost = deterministicModel.get_obj_val()
         subset_sol = deterministicModel.get_var_x_val()
-- 
2.43.0


From 79ed3b6471733c53dda13137c88cc9576407ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 08/13] fix: warm start skips the subsets deleted in an earlier
 iteration

---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e5e452..e855907 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -225,6 +225,7 @@ class AdaptivePartitioner(Solver):
 
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
+        self.merger.deleted_subsets = []
         if use_merger:
             if max(new_subset_costs) <= self.vUB:
                 feasible_subsets = self.refiner.feasible_subsets
-- 
2.43.0


From fd99534a6a6d2f06236c43354e810a07995e0ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 09/13] fix: results cannot be written when interrupted before
 the first iteration

---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index e855907..4c0ba6a 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -31,6 +31,7 @@ class AdaptivePartitioner(Solver):
             chance_instance, time_limit, gap)
         self.xUB = None
         self.zUB = None
+        self.iteration = 0
         self.did_merge = False
         self.MERGE_TOL = 1.00
         self.split_method = split_method
-- 
2.43.0


From b710e1ccef64decc9d0875b724329690c9ab0a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 10/13] fix: gap computation fails when the lower bound is zero

---
 src/solver/Solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 2b5d0d4..5cee60e 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -31,6 +31,9 @@ class Solver():
         """
         if self.vLB == -np.inf or self.vUB == np.inf:
             gap = np.inf
+        elif self.vLB == 0:
+            # The relative gap is undefined: optimal or not
+            gap = 0.0 if self.vUB <= 1e-8 else np.inf
         else:
             gap = (self.vUB - self.vLB)/self.vLB
         return gap
-- 
2.43.0


From e9d67b0daaf16b9df4197b9b965a6d61aef7ab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 11/13] fix: round-off of epsilon*N removes one violation from
 the allowed number

---
 src/BigMFinder.py                  | 2 +-
 src/instance/ChanceKnapInstance.py | 3 ++-
 src/refiner/Refiner.py             | 2 +-
 src/solver/AdaptivePartitioner.py  | 5 +++--
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7712755..78057e1 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -95,7 +95,7 @@ class BigMFinder(object):
         """Find the quantile of violations."""
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
-        q = int(math.floor(epsilon*self.nb_scenarios)+1)
+        q = int(math.floor(epsilon*self.nb_scenarios + 1e-6)+1)
         return violations[q]
 
     #   - - - Public methods - - -
diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index 297883e..7bc2130 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -118,7 +118,8 @@ class ChanceKnapInstance(ChanceInstance):
         # Check feasiblity using amount of infeasible scenarios
         nb_infeasible_scenarios = np.sum(is_scenario_infeasible)
         nb_scen_tolerance = self.epsilon*self.nb_scenarios
-        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance
+        # Tolerate the rounding error of the product, e.g. 0.29*100 < 29
+        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance + 1e-6
         return (sol_is_feasible, nb_infeasible_scenarios, nb_scen_tolerance,
                 is_scenario_infeasible, scenario_infeasibility)
 
diff --git a/src/refiner/Refiner.py b/src/refiner/Refiner.py
index 2646249..6a5a11a 100644
--- a/src/refiner/Refiner.py
+++ b/src/refiner/Refiner.py
@@ -85,7 +85,7 @@ class Refiner():
         """
         epsilon = self.chance_instance.get_epsilon()
         nb_scenarios = self.chance_instance.get_nb_scenarios()
-        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios))
+        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios + 1e-6))
         # Determine how many splits need to be performed
         mu = nb_subset_tolerance + 1 - nb_infeasible_subsets
         try:
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4c0ba6a..ae660d1 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -84,8 +84,9 @@ class AdaptivePartitioner(Solver):
         # Read instance data and determine minimum number of partitions
         nb_scenarios = self.chance_instance.get_nb_scenarios()
         epsilon = self.chance_instance.get_epsilon()
-        self.minimum_partition_size = math.floor(epsilon*nb_scenarios) + 1
-        self.nb_subsets = math.floor(nb_scenarios*epsilon) + 1
+        self.minimum_partition_size = math.floor(
+            epsilon*nb_scenarios + 1e-6) + 1
+        self.nb_subsets = self.minimum_partition_size
         # Generate initial partition and load it
         self.partition = self.initializer.create_first_partition(
             self.nb_subsets, partition_type=self.initial_partition_type)
-- 
2.43.0


From 684d55683da420f8ea4d74ade5090174154dc1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 12/13] fix: crash when the time limit is reached before a
 first solution

---
 src/UpperBounder.py               | 3 ++-
 src/solver/AdaptivePartitioner.py | 2 +-
 src/solver/Solver.py              | 3 +++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 3090e76..750bb5e 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -123,5 +123,6 @@ class UpperBounder():
             verbose=True)
 
         # - Sanity check -
-        self._check_results(x, v_obj, adaptivePartitioner)
+        if x is not None:
+            self._check_results(x, v_obj, adaptivePartitioner)
         return x, z, v_obj, v_bnd
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index ae660d1..4bba2b5 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -139,7 +139,7 @@ class AdaptivePartitioner(Solver):
                 self.vLB, self.zUB, self.merger.deleted_subsets,
                 bigMFinder, self._available_time(), use_big_M, use_lazy)
 
-        if self._available_time() <= 0:
+        if xUB is None or self._available_time() <= 0:
             return self.xUB, False
 
         is_feasible = self.chance_instance.check_feasibility(xUB)
diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 5cee60e..c099b95 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -118,6 +118,9 @@ class Solver():
         # - Solve and read results -
         cclp_model.solve(save_bounds=save_bounds, path=path,
                          elapsed_time=elapsed_time)
+        if cclp_model.grb_model.SolCount == 0:
+            # The time limit was reached before any solution was found
+            return None, None, -np.inf, cclp_model.get_obj_bnd()
         x = cclp_model.get_var_x_val()
         z = cclp_model.get_var_z_val()
         v_obj = cclp_model.get_obj_val()
-- 
2.43.0


From 3db0b26afd456817f20335a0f43101c3cd737d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 13/13] fix: Song et al. quantile index out of range when eps*N
 rounds to N-1

---
 src/BigMFinder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 78057e1..b4e309e 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -96,7 +96,8 @@ class BigMFinder(object):
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
         q = int(math.floor(epsilon*self.nb_scenarios + 1e-6)+1)
-        return violations[q]
+        # There are only len(violations) values: the largest is always valid
+        return violations[min(q, len(violations) - 1)]
 
     #   - - - Public methods - - -
     def run_belotti_et_al_big_M(self, vUB,
-- 
2.43.0

