From 79ce01d498cfdad7e1b152238563fcae6efd8ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 01/56] fix: give every optimizer its own copy of the default
 termination conditions

Updating the shared module dictionary changed the limits of every other
optimizer in the process.
---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index c191a1a..59fd846 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -165,7 +165,8 @@ class Optimizer(ABC):
     ):
         self.system_simulator = system_simulator
         self.use_jacobian_function = use_jacobian_function
-        self.termination_conditions = default_termination_conditions
+        self.termination_conditions = copy.deepcopy(
+            default_termination_conditions)
         if termination_cond is not None:
             self.termination_conditions.update(**termination_cond)
 
-- 
2.43.0


From a42fc275eb502924fc270129f09cf74060b7d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 02/56] fix: do not apply the cost function weights to the
 recorded costs in place

The in place product overwrote the already recorded unweighted costs and the
best costs found so far.
---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 59fd846..7f8d3f4 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -227,7 +227,7 @@ class Optimizer(ABC):
 
         # apply the cost function weights after saving the values.
         if self.cost_func_weights is not None:
-            costs *= self.cost_func_weights
+            costs = costs * self.cost_func_weights
 
         self._n_cost_fkt_eval += 1
         return costs
-- 
2.43.0


From 6279a248af1bb7f172894543569a7a365513a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 03/56] fix: record copies of the optimization parameters

The record held views of the array owned by the optimization driver, which is
free to reuse that array for the next evaluation.
---
 qopt/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 7f8d3f4..7477fe2 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -218,12 +218,13 @@ class Optimizer(ABC):
             self.optim_iter_summary.iter_num += 1
             self.optim_iter_summary.costs.append(costs)
             self.optim_iter_summary.parameters.append(
-                optimization_parameters.reshape(self.pulse_shape[::-1]).T
+                optimization_parameters.reshape(
+                    self.pulse_shape[::-1]).T.copy()
             )
         if np.linalg.norm(costs) < np.linalg.norm(self._min_costs):
             self._min_costs = costs
             self._min_costs_par = optimization_parameters.reshape(
-                self.pulse_shape[::-1]).T
+                self.pulse_shape[::-1]).T.copy()
 
         # apply the cost function weights after saving the values.
         if self.cost_func_weights is not None:
-- 
2.43.0


From 71fddec9eeee2e06840f8d88b3aa1188e711fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 04/56] fix: keep the best result when the wall time is
 exceeded

The gradient of the final state was evaluated at scrambled parameters, and the
whole progress was lost to an exception if no cost evaluation had finished or
if the driver does not use (or the cost function does not have) a gradient.
---
 qopt/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 7477fe2..3ba895b 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -336,9 +336,11 @@ class Optimizer(ABC):
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
 
-        if self.use_jacobian_function:
+        if self.use_jacobian_function and self._n_jac_fkt_eval > 0 \
+                and self._min_costs_par is not None:
+            # the wrapper expects the flattened parameters (control, time)
             jac_norm = np.linalg.norm(
-                self.cost_jacobian_wrapper(self._min_costs_par))
+                self.cost_jacobian_wrapper(self._min_costs_par.T.flatten()))
         else:
             jac_norm = 0
 
-- 
2.43.0


From a6e99155d8482b0259dea915e45f12eba3567744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 05/56] fix: measure the maximum wall time with the monotonic
 clock

A step of the system clock (NTP, manual adjustment) aborted optimizations early
or disabled the limit.
---
 qopt/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 3ba895b..cb6bd5c 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -174,6 +174,7 @@ class Optimizer(ABC):
         self.pulse_shape = ()
 
         self._opt_start_time = 0
+        self._opt_start_monotonic = 0
         self._min_costs = np.inf
         self._min_costs_par = None
         self._n_cost_fkt_eval = 0
@@ -207,7 +208,7 @@ class Optimizer(ABC):
             Cost values.
 
         """
-        if (time.time() - self._opt_start_time) \
+        if (time.monotonic() - self._opt_start_monotonic) \
                 > self.termination_conditions['max_wall_time']:
             raise WallTimeExceeded
 
@@ -311,6 +312,7 @@ class Optimizer(ABC):
                     indices=self.system_simulator.cost_indices
                 )
         self._opt_start_time = time.time()
+        self._opt_start_monotonic = time.monotonic()
         if self.system_simulator.stats is not None:
             # If the system simulator wants to write down statistics, then
             # initialise a fresh instance
-- 
2.43.0


From fca82f6c95bdffe3cb13945e6e10b14190455b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 06/56] fix: respect store_optimizer for all scalar
 minimization methods

---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index cb6bd5c..cead464 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -626,7 +626,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
-                    optimizer=self,
+                    optimizer=self if self.store_optimizer else None,
                     optim_summary=self.optim_iter_summary,
                     optimization_stats=self.system_simulator.stats
                 )
-- 
2.43.0


From 755ec65a6d05ddd231b29ff976f021a5d7b26875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 07/56] fix: let LeastSquaresOptimizer run without bounds

The documented default bounds=None was passed on to scipy, which rejects it.
---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index cead464..9a618d8 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -430,7 +430,8 @@ class LeastSquaresOptimizer(Optimizer):
                 fun=super().cost_func_wrapper,
                 x0=initial_control_amplitudes.T.flatten(),
                 jac=jac,
-                bounds=self.bounds,
+                bounds=(-np.inf, np.inf) if self.bounds is None
+                else self.bounds,
                 method=self.method,
                 ftol=self.termination_conditions["min_cost_gain"],
                 xtol=self.termination_conditions["min_amplitude_change"],
-- 
2.43.0


From be27776ce92f2f7e5d3cc55737b021019682b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 08/56] fix: record the initial parameters in the optimization
 result

The attribute is documented and collected by the DataContainer, but it was
never set.
---
 qopt/optimize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 9a618d8..a1cb021 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -177,6 +177,7 @@ class Optimizer(ABC):
         self._opt_start_monotonic = 0
         self._min_costs = np.inf
         self._min_costs_par = None
+        self._init_par = None
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
 
@@ -303,6 +304,7 @@ class Optimizer(ABC):
         """
         self._min_costs = np.inf
         self._min_costs_par = None
+        self._init_par = np.copy(initial_optimization_parameters)
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
         self.pulse_shape = initial_optimization_parameters.shape
@@ -354,6 +356,7 @@ class Optimizer(ABC):
         optim_result = optimization_data.OptimizationResult(
             final_cost=self._min_costs,
             indices=self.system_simulator.cost_indices,
+            init_parameters=self._init_par,
             final_parameters=self._min_costs_par,
             final_grad_norm=jac_norm,
             num_iter=self._n_cost_fkt_eval,
@@ -451,6 +454,7 @@ class LeastSquaresOptimizer(Optimizer):
             optim_result = optimization_data.OptimizationResult(
                 final_cost=result.fun,
                 indices=self.system_simulator.cost_indices,
+                init_parameters=self._init_par,
                 final_parameters=result.x.reshape(
                     self.pulse_shape[::-1]).T,
                 final_grad_norm=np.linalg.norm(result.grad),
@@ -565,6 +569,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_par,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     final_grad_norm=np.linalg.norm(result.jac),
@@ -598,6 +603,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_par,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     num_iter=result.nfev,
@@ -622,6 +628,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_par,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     num_iter=result.nfev,
@@ -872,6 +879,7 @@ class SimulatedAnnealing(Optimizer):
         optim_result = optimization_data.OptimizationResult(
             final_cost=costs,
             indices=self.system_simulator.cost_indices,
+            init_parameters=self._init_par,
             final_parameters=pulse,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
-- 
2.43.0


From c0c710099b98ef3eb7089baf61f4f02320a95f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 09/56] fix: keep the status in the dictionary form of an
 optimization result

---
 qopt/optimization_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qopt/optimization_data.py b/qopt/optimization_data.py
index 72d5264..8d78e4c 100644
--- a/qopt/optimization_data.py
+++ b/qopt/optimization_data.py
@@ -148,6 +148,7 @@ class OptimizationResult(object):
                 'init_parameters': self.init_parameters,
                 'num_iter': self.num_iter,
                 'termination_reason': self.termination_reason,
+                'status': self.status,
                 'optimizer': self.optimizer,
                 'optimization_stats': self.optimization_stats,
                 'optim_summary': self.optim_summary
-- 
2.43.0


From 64935125673ac7f98fbf01bd7345e6b566d6994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 10/56] fix: accept the memo argument in
 DataContainer.__deepcopy__

copy.deepcopy always passes it, so no container could be copied.
---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index d635543..65aec6b 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -219,7 +219,7 @@ class DataContainer:
         self.optimization_statistics.append(optimization_stats)
         self.check_length()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo=None):
         cpyobj = type(self)(
             final_costs=copy.deepcopy(self.final_costs),
             indices=copy.deepcopy(self.indices),
-- 
2.43.0


From af5e5dd3256b2a4dbb15a47b717975e17caa7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 11/56] fix: never leave a truncated file behind when saving a
 DataContainer

The destination was truncated before the new content was written, hence an
error or a crash while saving destroyed the previously saved results.
---
 qopt/data_container.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index 65aec6b..368a686 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -249,9 +249,23 @@ class DataContainer:
                 filename = os.path.join(self.storage_path, self.file_name)
             else:
                 filename = self.storage_path
-        infile = open(filename, 'wb')
-        pickle.dump(self._to_dict(), infile)
-        infile.close()
+        # The complete data is written to a temporary file, which then replaces
+        # the destination. A failed or interrupted save must not destroy the
+        # previously saved results.
+        filename = os.path.realpath(filename)
+        temp_filename = filename + '.tmp'
+        try:
+            with open(temp_filename, 'wb') as outfile:
+                pickle.dump(self._to_dict(), outfile)
+                outfile.flush()
+                os.fsync(outfile.fileno())
+            os.replace(temp_filename, filename)
+        except BaseException:
+            try:
+                os.remove(temp_filename)
+            except OSError:
+                pass
+            raise
 
     @classmethod
     def from_pickle(cls, filename):
-- 
2.43.0


From acb08e36d4411ada79cf132b5fbe33e47b722c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 12/56] fix: do not rescale the standard deviations in the list
 of the caller

A second generator created from the same list was rescaled twice.
---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index bc81527..514d6e6 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -443,7 +443,7 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                          n_traces=n_traces,
                          n_noise_operators=n_noise_operators,
                          always_redraw_samples=always_redraw_samples)
-        self.standard_deviation = standard_deviation
+        self.standard_deviation = list(standard_deviation)
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-- 
2.43.0


From b510f55cce65c50b20fad3825550eb0f197ac6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 13/56] fix: record copies of the cost values and gradients

The recorded arrays were the ones handed to the optimization driver, which may
modify them in place.
---
 qopt/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index a1cb021..c7ea6a9 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -218,13 +218,13 @@ class Optimizer(ABC):
 
         if self.save_intermediary_steps:
             self.optim_iter_summary.iter_num += 1
-            self.optim_iter_summary.costs.append(costs)
+            self.optim_iter_summary.costs.append(np.copy(costs))
             self.optim_iter_summary.parameters.append(
                 optimization_parameters.reshape(
                     self.pulse_shape[::-1]).T.copy()
             )
         if np.linalg.norm(costs) < np.linalg.norm(self._min_costs):
-            self._min_costs = costs
+            self._min_costs = np.copy(costs)
             self._min_costs_par = optimization_parameters.reshape(
                 self.pulse_shape[::-1]).T.copy()
 
@@ -255,7 +255,7 @@ class Optimizer(ABC):
             optimization_parameters.reshape(self.pulse_shape[::-1]).T)
 
         if self.save_intermediary_steps:
-            self.optim_iter_summary.gradients.append(jacobian)
+            self.optim_iter_summary.gradients.append(np.copy(jacobian))
 
         # jacobian shape (num_t, num_f, num_ctrl) -> (num_f, num_t * num_ctrl)
         jacobian = jacobian.transpose([1, 2, 0])
-- 
2.43.0


From 7533a48e584f7e1a75960eb1ac6e8fec220c5f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 14/56] fix: adopt new optimization parameters only after they
 were processed

If the transfer or amplitude function raised an exception, then the parameters
were already marked as set, and setting them again returned early while the
control amplitudes still belonged to the previous parameters.
---
 qopt/solver_algorithms.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 5ce5f68..a5b1bf7 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -373,19 +373,16 @@ class Solver(ABC):
 
         if np.array_equal(self._opt_pars, y):
             return
-        else:
-            self._opt_pars = np.copy(y)
 
         if self.transfer_function is not None:
-            self.transferred_parameters = self.transfer_function(y)
+            transferred_parameters = self.transfer_function(y)
         else:
-            self.transferred_parameters = np.copy(y)
+            transferred_parameters = np.copy(y)
 
         if self.amplitude_function is not None:
-            u = self.amplitude_function(
-                self.transferred_parameters)
+            u = self.amplitude_function(transferred_parameters)
         else:
-            u = self.transferred_parameters
+            u = transferred_parameters
 
         if len(u.shape) != 2:
             raise ValueError('The new control amplitudes must have two '
@@ -400,6 +397,9 @@ class Solver(ABC):
             raise ValueError('The new control amplitudes do not have the '
                              'correnct number of entries on the control axis!')
 
+        # The new state is only adopted once it has been computed completely.
+        self._opt_pars = np.copy(y)
+        self.transferred_parameters = transferred_parameters
         self._ctrl_amps = u
         self.reset_cached_propagators()
 
-- 
2.43.0


From 00c7c9deaa7a52e56553955bd7c1757475a07026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 15/56] fix: do not keep a reference to the parameter array of
 the caller

With the identity transfer function the control amplitudes were an alias of the
array of the caller, who could change them before they were evaluated.
---
 qopt/solver_algorithms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index a5b1bf7..86f1366 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -374,6 +374,10 @@ class Solver(ABC):
         if np.array_equal(self._opt_pars, y):
             return
 
+        # The identity transfer and amplitude functions return their argument.
+        # The caller is free to change the array later on.
+        y = np.copy(y)
+
         if self.transfer_function is not None:
             transferred_parameters = self.transfer_function(y)
         else:
@@ -398,7 +402,7 @@ class Solver(ABC):
                              'correnct number of entries on the control axis!')
 
         # The new state is only adopted once it has been computed completely.
-        self._opt_pars = np.copy(y)
+        self._opt_pars = y
         self.transferred_parameters = transferred_parameters
         self._ctrl_amps = u
         self.reset_cached_propagators()
-- 
2.43.0


From d63e839d569a0271b04461d00b8490340b5dfb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 16/56] fix: never cache partially computed propagators

The caches were filled in place. If a computation was interrupted or a user
function raised an exception, then the incomplete lists (or generators lacking
the dissipation) were served as results of later requests.
---
 qopt/solver_algorithms.py | 100 +++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 45 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 86f1366..64eb096 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -637,9 +637,10 @@ class Solver(ABC):
         """Computes the forward propagators. """
         if self._prop is None:
             self._compute_propagation()
-        self._fwd_prop = [self.initial_state.copy(), ]
+        fwd_prop = [self.initial_state.copy(), ]
         for prop in self._prop:
-            self._fwd_prop.append(prop * self._fwd_prop[-1])
+            fwd_prop.append(prop * fwd_prop[-1])
+        self._fwd_prop = fwd_prop
 
     def _compute_reversed_propagation(self) -> None:
         """Compute the reversed propagation. """
@@ -647,7 +648,7 @@ class Solver(ABC):
             self._compute_propagation()
 
         if type(self.initial_state) == matrix.DenseOperator:
-            self._reversed_prop = [matrix.DenseOperator(
+            reversed_prop = [matrix.DenseOperator(
                 np.eye(self._prop[0].shape[0])) * (1 + 0j), ]
         elif type(self.initial_state) == matrix.SparseOperator:
             raise NotImplementedError
@@ -658,7 +659,8 @@ class Solver(ABC):
                             "sparse control matrix.")
 
         for prop in self._prop[::-1]:
-            self._reversed_prop.append(self._reversed_prop[-1] * prop)
+            reversed_prop.append(reversed_prop[-1] * prop)
+        self._reversed_prop = reversed_prop
 
     @abstractmethod
     def _compute_propagation_derivatives(self) -> None:
@@ -896,12 +898,12 @@ class SchroedingerSolver(Solver):
             This is basically the total Hamiltonian.
 
         """
-        self._dyn_gen = [-1j * h for h in self.h_drift]
+        dyn_gens = [-1j * h for h in self.h_drift]
         for ctrl, ctrl_op in enumerate(self.h_ctrl):
             for dyn_gen, ctrl_amp in \
-                    zip(self._dyn_gen, self._ctrl_amps[:, ctrl]):
+                    zip(dyn_gens, self._ctrl_amps[:, ctrl]):
                 dyn_gen += -1j * ctrl_amp * ctrl_op
-        return self._dyn_gen
+        return dyn_gens
 
     def _compute_derivative_directions(
             self) -> List[List[q_mat.OperatorMatrix]]:
@@ -929,18 +931,18 @@ class SchroedingerSolver(Solver):
             calculate_propagator_derivatives = \
                 self.calculate_propagator_derivatives
 
-        # initialize the attributes
-        self._prop = [None for _ in range(len(self.transferred_time))]
+        # The attributes are set after the computation has been completed.
+        propagators = [None for _ in range(len(self.transferred_time))]
 
         if calculate_propagator_derivatives:
             derivative_directions = self._compute_derivative_directions()
-            self._derivative_prop = [
+            derivatives = [
                 [None for _ in range(len(self.transferred_time))]
                 for _2 in range(len(self.h_ctrl))]
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
                     try:
-                        self._prop[t], self._derivative_prop[ctrl][t] \
+                        propagators[t], derivatives[ctrl][t] \
                             = self._dyn_gen[t].dexp(
                             derivative_directions[t][ctrl],
                             self.transferred_time[t],
@@ -950,11 +952,13 @@ class SchroedingerSolver(Solver):
                         raise ValueError('The computation has failed with '
                                          'a value error. Try another '
                                          'exponentiation method.')
+            self._derivative_prop = derivatives
         else:
             for t in range(len(self.transferred_time)):
-                self._prop[t] = self._dyn_gen[t].exp(
+                propagators[t] = self._dyn_gen[t].exp(
                     tau=self.transferred_time[t], method=self.exponential_method,
                     is_skew_hermitian=self._is_skew_hermitian)
+        self._prop = propagators
 
     def _compute_propagation_derivatives(self) -> None:
         """
@@ -970,14 +974,15 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            self._derivative_prop = [[None for _ in range(len(self.h_ctrl))]
-                                     for _2 in range(len(self.transferred_time))]
+            derivatives = [[None for _ in range(len(self.h_ctrl))]
+                           for _2 in range(len(self.transferred_time))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    self._derivative_prop[t][ctrl] = \
+                    derivatives[t][ctrl] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
+            self._derivative_prop = derivatives
         else:
             raise ValueError('Unknown gradient derivative approximation '
                              'method:'
@@ -1287,15 +1292,15 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                 control_amplitudes=self._ctrl_amps
             )
 
-        self._dyn_gen_noise = [[dyn_gen.copy() for dyn_gen in self._dyn_gen]
-                               for _ in range(n_noise_traces)]
+        dyn_gen_noise = [[dyn_gen.copy() for dyn_gen in self._dyn_gen]
+                         for _ in range(n_noise_traces)]
 
         for t, sample_stack in enumerate(noise_samples):
             for n_trace, trace in enumerate(sample_stack):
                 for operator_sample, operator in zip(trace, self.h_noise):
-                    self._dyn_gen_noise[n_trace][t] += \
+                    dyn_gen_noise[n_trace][t] += \
                         (-1j * operator_sample) * operator
-        return self._dyn_gen_noise
+        return dyn_gen_noise
 
     def _compute_propagation(
             self, calculate_propagator_derivatives: Optional[bool] = None
@@ -1319,8 +1324,8 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         num_t = len(self.transferred_time)
         num_ctrl = len(self.h_ctrl)
 
-        self._prop_noise = [[None for _ in range(num_t)]
-                            for _2 in range(n_noise_traces)]
+        prop_noise = [[None for _ in range(num_t)]
+                      for _2 in range(n_noise_traces)]
 
         if calculate_propagator_derivatives is None:
             calculate_propagator_derivatives = \
@@ -1328,7 +1333,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
 
         # parallelization of following code probably unnecessary
         if calculate_propagator_derivatives:
-            self._derivative_prop_noise = \
+            derivative_prop_noise = \
                 [[[None for _ in range(num_t)]
                   for _2 in range(num_ctrl)]
                  for _3 in range(n_noise_traces)]
@@ -1343,18 +1348,19 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                 for k in range(n_noise_traces):
                     for t in range(num_t):
                         for ctrl in range(len(self.h_ctrl)):
-                            self._prop_noise[k][t], \
-                                self._derivative_prop_noise[k][ctrl][t] \
+                            prop_noise[k][t], \
+                                derivative_prop_noise[k][ctrl][t] \
                                 = self._dyn_gen_noise[k][t].dexp(
                                 derivative_directions[t][ctrl],
                                 self.transferred_time[t],
                                 compute_expm=True,
                                 method=self.exponential_method,
                                 is_skew_hermitian=self._is_skew_hermitian)
+                self._derivative_prop_noise = derivative_prop_noise
             else:
                 for k in range(n_noise_traces):
                     for t in range(num_t):
-                        self._prop_noise[k][t] = self._dyn_gen_noise[k][t].exp(
+                        prop_noise[k][t] = self._dyn_gen_noise[k][t].exp(
                             tau=self.transferred_time[t],
                             method=self.exponential_method,
                             is_skew_hermitian=self._is_skew_hermitian)
@@ -1375,27 +1381,30 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                         'is_skew_hermitian'] = self._is_skew_hermitian
 
                 with Pool(processes=self.processes) as pool:
-                    self._prop_noise = pool.map(
+                    prop_noise = pool.map(
                         _compute_matrix_exponentials, input_dicts)
 
         else:
             raise ValueError('Invalid number of processes for parallel '
                              'computation!')
 
+        self._prop_noise = prop_noise
+
     def _compute_forward_propagation(self) -> None:
         """Computes the forward propagators. """
         super()._compute_forward_propagation()
         if self._prop_noise is None:
             self._compute_propagation()
 
-        self._fwd_prop_noise = [
+        fwd_prop_noise = [
             [self.initial_state.copy(), ]
             for _ in range(self.noise_trace_generator.n_traces)]
 
-        for fwd_per_trace, prop_per_trace in zip(self._fwd_prop_noise,
+        for fwd_per_trace, prop_per_trace in zip(fwd_prop_noise,
                                                  self._prop_noise):
             for prop in prop_per_trace:
                 fwd_per_trace.append(prop * fwd_per_trace[-1])
+        self._fwd_prop_noise = fwd_prop_noise
 
     def _compute_reversed_propagation(self) -> None:
         """Compute the reversed propagation. For the perturbed and unperturbed
@@ -1404,14 +1413,15 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         if self._prop_noise is None:
             self._compute_propagation()
 
-        self._reversed_prop_noise = [
+        reversed_prop_noise = [
             [self._prop[0].identity_like(), ]
             for _ in range(self.noise_trace_generator.n_traces)]
 
-        for rev_per_trace, prop_per_trace in zip(self._reversed_prop_noise,
+        for rev_per_trace, prop_per_trace in zip(reversed_prop_noise,
                                                  self._prop_noise):
             for prop in prop_per_trace[::-1]:
                 rev_per_trace.append(rev_per_trace[-1] * prop)
+        self._reversed_prop_noise = reversed_prop_noise
 
     def _compute_propagation_derivatives(self) -> None:
         """
@@ -1434,7 +1444,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             num_t = len(self.transferred_time)
             num_ctrl = len(self.h_ctrl)
 
-            self._derivative_prop_noise = [
+            derivative_prop_noise = [
                 [[None for _ in range(num_t)]
                  for _2 in range(num_ctrl)]
                 for _3 in range(n_noise_traces)]
@@ -1444,9 +1454,10 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             for k in range(n_noise_traces):
                 for t in range(len(self.transferred_time)):
                     for ctrl in range(num_ctrl):
-                        self._derivative_prop_noise[k][ctrl][t] = \
+                        derivative_prop_noise[k][ctrl][t] = \
                             self.transferred_time[t] * derivative_directions[t][ctrl] \
                             * self._prop_noise[k][t]
+            self._derivative_prop_noise = derivative_prop_noise
         else:
             raise ValueError('Unknown gradient derivative approximation '
                              'method:'
@@ -1910,27 +1921,27 @@ class LindbladSolver(SchroedingerSolver):
 
             # Add the time dependence
             if self._prefactor_function is not None:
-                self._diss_sup_op = []
+                diss_sup_op = []
                 prefactors = self._prefactor_function(
                     copy.deepcopy(self._ctrl_amps),
                     copy.deepcopy(self.transferred_parameters))
                 for factor_at_time_t in prefactors:
-                    self._diss_sup_op.append(
+                    diss_sup_op.append(
                         const_diss_sup_op[0] * factor_at_time_t[0])
                     for sup_op, factor \
                             in zip(const_diss_sup_op[1:],
                                    factor_at_time_t[1:]):
-                        self._diss_sup_op[-1] += sup_op * factor
+                        diss_sup_op[-1] += sup_op * factor
             else:
-                self._diss_sup_op = [const_diss_sup_op[0], ]
+                diss_sup_op = [const_diss_sup_op[0], ]
                 for sup_op in const_diss_sup_op[1:]:
-                    self._diss_sup_op[0] += sup_op
-                self._diss_sup_op *= len(self.transferred_time)
+                    diss_sup_op[0] += sup_op
+                diss_sup_op *= len(self.transferred_time)
         else:
-            self._diss_sup_op = self._sup_op_func(
+            diss_sup_op = self._sup_op_func(
                 copy.deepcopy(self._ctrl_amps),
                 copy.deepcopy(self.transferred_parameters))
-        return self._diss_sup_op
+        return diss_sup_op
 
     def _calc_diss_sup_op_deriv(self) \
             -> Optional[List[List[q_mat.OperatorMatrix]]]:
@@ -2087,17 +2098,17 @@ class LindbladSolver(SchroedingerSolver):
             matrices.
 
         """
-        self._dyn_gen = super()._compute_dyn_gen()
+        dyn_gens = super()._compute_dyn_gen()
 
         if self._diss_sup_op is None:
             self._diss_sup_op = self._calc_diss_sup_op()
 
-        identiy_operator = self._dyn_gen[0].identity_like()
+        identiy_operator = dyn_gens[0].identity_like()
         sup_op_dyn_gen = []
 
-        assert(len(self._dyn_gen) == len(self._diss_sup_op))
+        assert(len(dyn_gens) == len(self._diss_sup_op))
 
-        for dyn_gen, diss_sup_op in zip(self._dyn_gen, self._diss_sup_op):
+        for dyn_gen, diss_sup_op in zip(dyn_gens, self._diss_sup_op):
             sup_op_dyn_gen.append(identiy_operator.kron(dyn_gen))
             # the cancelling minus sign accounts for the -i factor, which is
             # also conjugated (included in the dyn gen)
@@ -2105,7 +2116,6 @@ class LindbladSolver(SchroedingerSolver):
                 identiy_operator)
             sup_op_dyn_gen[-1] += diss_sup_op
 
-        self._dyn_gen = sup_op_dyn_gen
         return sup_op_dyn_gen
 
 
-- 
2.43.0


From 1f1cee5dcd427a3d758130016267019b0741d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 17/56] fix: do not sum the dissipation super operators in
 place

The sum was accumulated in the operator supplied by the user, so that a second
solver created from the same operators had a stronger dissipation.
---
 qopt/solver_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 64eb096..241550e 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1933,7 +1933,7 @@ class LindbladSolver(SchroedingerSolver):
                                    factor_at_time_t[1:]):
                         diss_sup_op[-1] += sup_op * factor
             else:
-                diss_sup_op = [const_diss_sup_op[0], ]
+                diss_sup_op = [const_diss_sup_op[0].copy(), ]
                 for sup_op in const_diss_sup_op[1:]:
                     diss_sup_op[0] += sup_op
                 diss_sup_op *= len(self.transferred_time)
-- 
2.43.0


From b707c4e752adf43b0299e9d5eeb6c01f28cfed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 18/56] fix: order the approximated propagator derivatives by
 control and time

The 'grape' approximation used the order time, control, while the exact method
and all consumers use control, time.
---
 qopt/solver_algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 241550e..95ec599 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -974,12 +974,12 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            derivatives = [[None for _ in range(len(self.h_ctrl))]
-                           for _2 in range(len(self.transferred_time))]
+            derivatives = [[None for _ in range(len(self.transferred_time))]
+                           for _2 in range(len(self.h_ctrl))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    derivatives[t][ctrl] = \
+                    derivatives[ctrl][t] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
             self._derivative_prop = derivatives
-- 
2.43.0


From 3895bfcb5a36cdb25635dfce094be940e5b3ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 19/56] fix: recalculate transfer matrices when the times are
 changed

The cached matrix of the previous time steps was used, although it depends on
their number and (ExponentialMTF) on their durations.
---
 qopt/transfer_function.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index d1ccc38..43935b7 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1063,6 +1063,11 @@ class ParallelTF(TransferFunction):
 
 class MatrixTF(TransferFunction):
 
+    def set_times(self, y_times: np.array) -> None:
+        """See base class. The transfer matrix depends on the times. """
+        super().set_times(y_times)
+        self._transfer_matrix = None
+
     def __call__(self, y: np.array) -> np.array:
         """Calculate the transferred optimization parameters (x).
 
@@ -1229,6 +1234,7 @@ class ConcatenateMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.x_times = self.tf2.x_times
         self.num_x = self.tf2.num_x
+        self._transfer_matrix = None
         return
 
     def plot_pulse(self, y: np.ndarray) -> None:
@@ -1299,6 +1305,7 @@ class ParallelMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.num_x = self.tf1.num_x
         self.x_times = self.tf1.x_times
+        self._transfer_matrix = None
 
 
 class CustomMTF(MatrixTF):
@@ -1383,7 +1390,8 @@ class CustomMTF(MatrixTF):
                 raise ValueError('Unknown boundary type:'
                                  + str(self.bound_type[0]))
             self.oversampling = int(self.oversampling)
-            super().set_times(y_times)
+            # The custom transfer matrix must be kept.
+            TransferFunction.set_times(self, y_times)
         else:
             y_times = np.squeeze(y_times)
             self.x_times = y_times
-- 
2.43.0


From e30611a9b6447d9b4303abd69daaacd7f3534b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 20/56] fix: make concatenated matrix transfer functions
 callable

The total transfer matrix was never stored, so that neither the call nor the
gradient worked.
---
 qopt/transfer_function.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 43935b7..38548a2 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1243,8 +1243,12 @@ class ConcatenateMTF(MatrixTF):
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-        self.tf1._calculate_transfer_matrix()
-        self.tf2._calculate_transfer_matrix()
+        self._transfer_matrix = self.transfer_matrix
+
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """See base class. The second function also acts on the offset. """
+        self._check_dimensions_datatype(y)
+        return self.tf2(self.tf1(y))
 
 
 class ParallelMTF(MatrixTF):
-- 
2.43.0


From fefbc4b811f0ddf9e1e4f250b0875ee4f4c203b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 21/56] fix: do not keep a reference to the time array of the
 caller

ExponentialMTF evaluates the times lazily.
---
 qopt/transfer_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 38548a2..3279ef1 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -377,7 +377,7 @@ class TransferFunction(ABC):
                              'dimension!')
 
         self._num_y = y_times.size
-        self._y_times = y_times
+        self._y_times = np.copy(y_times)
 
         if self.bound_type is None:
             self.num_x = self.oversampling * self._num_y
-- 
2.43.0


From ca9a85ce1db65001a1097e0d7a973bdb37fd8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 22/56] fix: update the control amplitudes when the times of a
 solver are changed

The control amplitudes of the previous times were kept, even when the same
optimization parameters were set again.
---
 qopt/solver_algorithms.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 95ec599..1def557 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -324,6 +324,7 @@ class Solver(ABC):
             self.transfer_function = transfer_function
 
         self.transferred_time = None
+        self.transferred_parameters = None
         self.set_times(tau=tau)
 
         if type(h_drift) in [matrix.DenseOperator, matrix.SparseOperator]:
@@ -338,8 +339,6 @@ class Solver(ABC):
         else:
             self.amplitude_function = amplitude_function
 
-        self.transferred_parameters = None
-
         self.consistency_checks(paranoia_level=paranoia_level)
 
     def set_times(self, tau):
@@ -355,6 +354,16 @@ class Solver(ABC):
         self.transferred_time = self.transfer_function.x_times
         self.reset_cached_propagators()
 
+        if self.transferred_parameters is not None:
+            # The control amplitudes which were calculated from the current
+            # optimization parameters can depend on the times.
+            opt_pars = self._opt_pars
+            self._opt_pars = None
+            self.transferred_parameters = None
+            self._ctrl_amps = None
+            if len(opt_pars) == np.size(tau):
+                self.set_optimization_parameters(opt_pars)
+
     def set_optimization_parameters(self, y: np.array) -> None:
         """
         Set the control amplitudes.
-- 
2.43.0


From 2a57c9dc2e8dde5cae9b1cf410f63ebac4a903ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 23/56] fix: identify the filter function noise operators of
 Monte Carlo solvers

The override of create_ff_h_n did not store the identifiers, so that the filter
function infidelity had no entry at all, and it called noise Hamiltonians given
as function with one argument instead of the documented three.
---
 qopt/solver_algorithms.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 1def557..6f7917a 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -599,11 +599,7 @@ class Solver(ABC):
                 h_n = self._filter_function_h_n(self._ctrl_amps)
 
         if not h_n:
-            h_n = [
-                [
-                    0 * self.h_ctrl[0], self.transferred_time, 'No Noise'
-                ]
-            ]
+            h_n = self._default_ff_h_n()
 
         # we store the order of the noise operators. They must coincide with
         # the order in filter_functions_n_coeffs_deriv
@@ -627,6 +623,15 @@ class Solver(ABC):
 
         return h_n
 
+    def _default_ff_h_n(self) -> list:
+        """Noise Hamiltonian of the filter function formalism, if the user
+        does not specify any. """
+        return [
+            [
+                0 * self.h_ctrl[0], self.transferred_time, 'No Noise'
+            ]
+        ]
+
     @abstractmethod
     def _compute_propagation(self) -> None:
         """
@@ -1472,8 +1477,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                              'method:'
                              + str(self.frechet_deriv_approx_method))
 
-    @property
-    def create_ff_h_n(self) -> list:
+    def _default_ff_h_n(self) -> list:
         """Creates the noise hamiltonian of the filter function formalism.
 
         If `filter_function_h_n` is None, then the filter function noise
@@ -1487,17 +1491,11 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             Noise Hamiltonian of the filter function formalism.
 
         """
-        if type(self._filter_function_h_n) == list:
-            h_n = self._filter_function_h_n
-        else:
-            h_n = self._filter_function_h_n(self._opt_pars)
-
-        if not h_n:
-            h_n = []
-            for i, noise_operator in enumerate(self.h_noise):
-                if type(noise_operator) == matrix.DenseOperator:
-                    noise_operator = noise_operator.data
-                h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
+        h_n = []
+        for i, noise_operator in enumerate(self.h_noise):
+            if type(noise_operator) == matrix.DenseOperator:
+                noise_operator = noise_operator.data
+            h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
 
         return h_n
 
-- 
2.43.0


From 7f0005274ae715b5248fa9c15d61fa24ed436a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 24/56] fix: discard the pulse sequence if its creation fails

Without the diagonalization, the pulse sequence would later be used without the
drift Hamiltonian.
---
 qopt/solver_algorithms.py | 52 ++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 6f7917a..2702ad1 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -743,29 +743,35 @@ class Solver(ABC):
         # nonlinear coupling), but in filter_functions the form H =
         # a(t) A is imposed, we don't tell the PulseSequence object
         # about H_drift and set the eigendecomposition after the fact.
-        if self.pulse_sequence is None:
-            h_c = list(zip(
-                self.h_ctrl,
-                self._ctrl_amps.T,
-                [f'Control{i}' for i in range(len(self.h_ctrl))]
-            ))
-            self.pulse_sequence = pulse_sequence.PulseSequence(
-                h_c, self.create_ff_h_n, self.transferred_time, basis
-            )
-        else:
-            # Clean up the caches and update coefficients
-            self.pulse_sequence.cleanup('all')
-            self.pulse_sequence.c_coeffs = self._ctrl_amps.T
-            # Not the most elegant, but necessary for the current
-            # implementation.
-            self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
-                self.create_ff_h_n,
-                len(self.transferred_time), 'H_n')[2]
-
-            if basis is not None:
-                self.pulse_sequence.basis = basis
-
-        self._diagonalize_and_propagate_pulse_sequence()
+        try:
+            if self.pulse_sequence is None:
+                h_c = list(zip(
+                    self.h_ctrl,
+                    self._ctrl_amps.T,
+                    [f'Control{i}' for i in range(len(self.h_ctrl))]
+                ))
+                self.pulse_sequence = pulse_sequence.PulseSequence(
+                    h_c, self.create_ff_h_n, self.transferred_time, basis
+                )
+            else:
+                # Clean up the caches and update coefficients
+                self.pulse_sequence.cleanup('all')
+                self.pulse_sequence.c_coeffs = self._ctrl_amps.T
+                # Not the most elegant, but necessary for the current
+                # implementation.
+                self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
+                    self.create_ff_h_n,
+                    len(self.transferred_time), 'H_n')[2]
+
+                if basis is not None:
+                    self.pulse_sequence.basis = basis
+
+            self._diagonalize_and_propagate_pulse_sequence()
+        except BaseException:
+            # Without its eigen decomposition, the pulse sequence would
+            # silently neglect the drift.
+            self.pulse_sequence = None
+            raise
         return self.pulse_sequence
 
     def plot_bloch_sphere(
-- 
2.43.0


From 9b2462c48d8578f1f5f1fa463be5acb05564d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 25/56] fix: call the noise amplitude function with copies

A function working in place changed the stored samples of the noise generator
and the control amplitudes of the solver.
---
 qopt/solver_algorithms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 2702ad1..786991c 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1305,11 +1305,14 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         noise_samples = np.transpose(noise_samples, (2, 1, 0))
 
         if self.noise_amplitude_function:
+            # The user function receives copies, because it could work in
+            # place.
             noise_samples = self.noise_amplitude_function(
-                noise_samples=noise_samples,
-                optimization_parameters=self._opt_pars,
-                transferred_parameters=self.transferred_parameters,
-                control_amplitudes=self._ctrl_amps
+                noise_samples=np.copy(noise_samples),
+                optimization_parameters=copy.deepcopy(self._opt_pars),
+                transferred_parameters=copy.deepcopy(
+                    self.transferred_parameters),
+                control_amplitudes=np.copy(self._ctrl_amps)
             )
 
         dyn_gen_noise = [[dyn_gen.copy() for dyn_gen in self._dyn_gen]
-- 
2.43.0


From d0e5170a18cbc3d9ea93a0ca55456105fd445eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 26/56] fix: keep the order of the subsystems in the partial
 trace

The iteration order of a set is not sorted for nine or more subsystems.
---
 qopt/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index c77968d..33b4fbc 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -928,7 +928,7 @@ class DenseOperator(OperatorMatrix):
 
         remove = list(np.sort(remove))
         # indices of subspace that are kept
-        keep = list(set(np.arange(n_dim)) - set(remove))
+        keep = sorted(set(np.arange(n_dim)) - set(remove))
 
         dims_rm = (dims[remove]).tolist()
         dims_keep = (dims[keep]).tolist()
-- 
2.43.0


From 2059b466789ec2d005c36ee727144956bda17411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 27/56] fix: do not keep sample frequencies belonging to
 previous times

The default frequencies depend on the pulse duration.
---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0bd8bff..5362196 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1566,7 +1566,7 @@ class OperatorFilterFunctionInfidelity(CostFunction):
             if self.solver.pulse_sequence is None:
                 self.solver.create_pulse_sequence()
 
-            self._omega = filter_functions.util.get_sample_frequencies(
+            return filter_functions.util.get_sample_frequencies(
                 pulse=self.solver.pulse_sequence,
                 n_samples=200,
                 spacing='log',
-- 
2.43.0


From 40cfee77152e923509c818866406eca5603e81fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 28/56] fix: support an empty drift Hamiltonian

It passed the consistency checks, but led to an IndexError.
---
 qopt/solver_algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 786991c..3789ed2 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -331,6 +331,9 @@ class Solver(ABC):
             self.h_drift = [h_drift, ] * self.transfer_function.num_x
         elif len(h_drift) == 1:
             self.h_drift = h_drift * self.transfer_function.num_x
+        elif len(h_drift) == 0:
+            self.h_drift = [0 * self.h_ctrl[0], ] \
+                           * self.transfer_function.num_x
         else:
             self.h_drift = h_drift
 
-- 
2.43.0


From 3718502e2771aed50baea31222d68e33e9ece415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 29/56] fix: record evaluation times of completed evaluations
 only

An exception in a cost function left an incomplete entry in the statistics,
which could not be summed up afterwards.
---
 qopt/simulator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index f248460..ca07b8b 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -200,12 +200,12 @@ class Simulator(object):
         costs = []
 
         if self.stats:
-            self.stats.cost_func_eval_times.append([])
+            eval_times = []
             for i, cost_func in enumerate(self.cost_funcs):
                 t_start = time.time()
                 cost = cost_func.costs()
                 t_end = time.time()
-                self.stats.cost_func_eval_times[-1].append(t_end - t_start)
+                eval_times.append(t_end - t_start)
 
                 # reimplement the block below
                 costs.append(np.asarray(cost).flatten())
@@ -218,6 +218,7 @@ class Simulator(object):
                 else:
                     costs.append(cost.reshape(1))
                 """
+            self.stats.cost_func_eval_times.append(eval_times)
             costs = np.concatenate(costs, axis=0)
         else:
             for i, cost_func in enumerate(self.cost_funcs):
@@ -264,7 +265,7 @@ class Simulator(object):
         record_evaluation_times = bool(self.stats)
 
         if record_evaluation_times:
-            self.stats.grad_func_eval_times.append([])
+            eval_times = []
 
         for i, cost_func in enumerate(self.cost_funcs):
             if record_evaluation_times:
@@ -285,7 +286,10 @@ class Simulator(object):
             jacobians.append(jac_x_transferred)
             if record_evaluation_times:
                 t_end = time.time()
-                self.stats.grad_func_eval_times[-1].append(t_end - t_start)
+                eval_times.append(t_end - t_start)
+
+        if record_evaluation_times:
+            self.stats.grad_func_eval_times.append(eval_times)
 
         # two dimensional form as required by scipy solvers
         total_jac = np.concatenate(jacobians, axis=1)
-- 
2.43.0


From 34da9835d1aed66acc1b13b3eecfc8714a8eac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 30/56] fix: read the dimensions from the new pulse

The setter used the shape of the previous pulse and failed if there was none.
---
 qopt/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index ca07b8b..32b8965 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -145,7 +145,7 @@ class Simulator(object):
     def pulse(self, new_pulse):
         """Sets the pulse and the corresponding attributes accordingly. """
         if new_pulse is not None:
-            self._num_times, self._num_ctrl = self._optimization_parameteres.shape
+            self._num_times, self._num_ctrl = new_pulse.shape
         self._optimization_parameteres = new_pulse
 
     @needs_refactoring
-- 
2.43.0


From 3fe207af74313112aa22df229831bccdae283455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 31/56] fix: create a new pulse sequence instead of reparsing
 the old one

Repeated calls of Solver.create_pulse_sequence failed because a private
function of filter_functions was renamed, and mixed up the coefficients of
more than ten controls.
---
 qopt/solver_algorithms.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 3789ed2..d0160df 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -747,28 +747,14 @@ class Solver(ABC):
         # a(t) A is imposed, we don't tell the PulseSequence object
         # about H_drift and set the eigendecomposition after the fact.
         try:
-            if self.pulse_sequence is None:
-                h_c = list(zip(
-                    self.h_ctrl,
-                    self._ctrl_amps.T,
-                    [f'Control{i}' for i in range(len(self.h_ctrl))]
-                ))
-                self.pulse_sequence = pulse_sequence.PulseSequence(
-                    h_c, self.create_ff_h_n, self.transferred_time, basis
-                )
-            else:
-                # Clean up the caches and update coefficients
-                self.pulse_sequence.cleanup('all')
-                self.pulse_sequence.c_coeffs = self._ctrl_amps.T
-                # Not the most elegant, but necessary for the current
-                # implementation.
-                self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
-                    self.create_ff_h_n,
-                    len(self.transferred_time), 'H_n')[2]
-
-                if basis is not None:
-                    self.pulse_sequence.basis = basis
-
+            h_c = list(zip(
+                self.h_ctrl,
+                self._ctrl_amps.T,
+                [f'Control{i}' for i in range(len(self.h_ctrl))]
+            ))
+            self.pulse_sequence = pulse_sequence.PulseSequence(
+                h_c, self.create_ff_h_n, self.transferred_time, basis
+            )
             self._diagonalize_and_propagate_pulse_sequence()
         except BaseException:
             # Without its eigen decomposition, the pulse sequence would
-- 
2.43.0


From bdb7f6942d1b5a506258cd735d6f697ad939e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 32/56] fix: use the approximated derivatives independently of
 the query order

---
 qopt/solver_algorithms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index d0160df..9c2cbe7 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -937,8 +937,10 @@ class SchroedingerSolver(Solver):
             self._dyn_gen = self._compute_dyn_gen()
 
         if calculate_propagator_derivatives is None:
+            # Approximated derivatives are calculated separately.
             calculate_propagator_derivatives = \
-                self.calculate_propagator_derivatives
+                self.calculate_propagator_derivatives \
+                and not self.frechet_deriv_approx_method
 
         # The attributes are set after the computation has been completed.
         propagators = [None for _ in range(len(self.transferred_time))]
@@ -1340,8 +1342,10 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                       for _2 in range(n_noise_traces)]
 
         if calculate_propagator_derivatives is None:
+            # Approximated derivatives are calculated separately.
             calculate_propagator_derivatives = \
-                self.calculate_propagator_derivatives
+                self.calculate_propagator_derivatives \
+                and not self.frechet_deriv_approx_method
 
         # parallelization of following code probably unnecessary
         if calculate_propagator_derivatives:
-- 
2.43.0


From e48ae6217ca5bdbfd196b6d08bae9031a270ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 33/56] fix: construct the times of a custom transfer function
 again on re-timing

---
 qopt/transfer_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 3279ef1..dee3301 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1362,6 +1362,8 @@ class CustomMTF(MatrixTF):
         self._num_y = transfer_matrix.shape[1]
         self.num_x = transfer_matrix.shape[0]
         self.x_times = x_times
+        # set_times also writes the x_times
+        self._explicit_x_times = x_times is not None
         self.bound_type = bound_type
         self.oversampling = oversampling
 
@@ -1372,7 +1374,7 @@ class CustomMTF(MatrixTF):
 
     def set_times(self, y_times: np.ndarray) -> None:
         """See base class."""
-        if self.x_times is None:
+        if not self._explicit_x_times:
             # construct the oversampling
             if self.bound_type is None:
                 # assume no padding
-- 
2.43.0


From a579bfb64b4dcfe2c0a597606ac9ad6e9adabb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 34/56] fix: correct the standard deviation of each noise
 operator by its own samples

---
 qopt/noise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 514d6e6..bbe81a8 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -451,10 +451,14 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                 raise RuntimeWarning('Standard deviation cannot be estimated'
                                      'for a single trace!')
             elif self.sampling_mode == 'uncorrelated_deterministic':
+                n_samples = self.n_traces
+                if self._n_traces and self._n_traces > 1:
+                    # each noise operator is sampled _n_traces times
+                    n_samples = self._n_traces
                 for i in range(len(self.standard_deviation)):
                     samples = sample_1dim_gaussian_distribution(
                         std=self.standard_deviation[i],
-                        n_samples=self.n_traces
+                        n_samples=n_samples
                     )
                     actual_std = np.std(samples)
                     if actual_std < 1e-20:
-- 
2.43.0


From 190397468b43c4884ad637accd510fec614019f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 35/56] fix: keep the statistics of a result apart from later
 evaluations

---
 qopt/optimize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index c7ea6a9..99d52e8 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -364,7 +364,8 @@ class Optimizer(ABC):
             status=5,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
-            optimization_stats=self.system_simulator.stats
+            optimization_stats=copy.deepcopy(
+                self.system_simulator.stats)
         )
         return optim_result
 
@@ -463,7 +464,8 @@ class LeastSquaresOptimizer(Optimizer):
                 status=result.status,
                 optimizer=storage_opt,
                 optim_summary=self.optim_iter_summary,
-                optimization_stats=self.system_simulator.stats
+                optimization_stats=copy.deepcopy(
+                    self.system_simulator.stats)
             )
         except WallTimeExceeded:
             optim_result = self.write_state_to_result()
@@ -643,6 +645,8 @@ class ScalarMinimizingOptimizer(Optimizer):
 
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
+            optim_result.optimization_stats = copy.deepcopy(
+                self.system_simulator.stats)
 
         return optim_result
 
@@ -883,7 +887,8 @@ class SimulatedAnnealing(Optimizer):
             final_parameters=pulse,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
-            optimization_stats=self.system_simulator.stats
+            optimization_stats=copy.deepcopy(
+                self.system_simulator.stats)
         )
 
         return optim_result
-- 
2.43.0


From 1ffffbb9b437e03a57f9862a89b310b1247f1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 36/56] fix: let control noise solvers be pickled and copied

---
 qopt/solver_algorithms.py | 68 +++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 9c2cbe7..bb3cf66 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1538,39 +1538,6 @@ class SchroedingerSMCControlNoise(SchroedingerSMonteCarlo):
             transfer_function: Optional[TransferFunction] = None,
             amplitude_function: Optional[AmplitudeFunction] = None):
 
-        def noise_amplitude_function(noise_samples: np.array,
-                                     transferred_parameters: np.array,
-                                     control_amplitudes: np.array,
-                                     **_):
-            """Calculates the noise amplitudes.
-
-            Takes into account the actual optimization parameters and random
-            variations.
-
-            Parameters
-            ----------
-            noise_samples: np.array, shape()
-                Noise samples calculated by the noise trace generator.
-
-            transferred_parameters: np.array
-                Transferred optimization parameters.
-
-            control_amplitudes: np.array
-                Control amplitudes.
-
-            """
-            # noise_amplitudes = np.zeros_like(noise_samples, dtype=complex)
-            noise_amplitudes = np.zeros(
-                (noise_samples.shape[0], noise_samples.shape[1],
-                    control_amplitudes.shape[1]), dtype=complex)
-
-            # complex values were requested.
-            for trace_num in range(noise_samples.shape[1]):
-                noise_amplitudes[:, trace_num, :] = self.amplitude_function(
-                    transferred_parameters + noise_samples[:, trace_num, :]) \
-                    - control_amplitudes
-            return noise_amplitudes
-
         super().__init__(
             h_drift=h_drift,
             h_ctrl=h_ctrl,
@@ -1589,9 +1556,42 @@ class SchroedingerSMCControlNoise(SchroedingerSMonteCarlo):
             is_skew_hermitian=is_skew_hermitian,
             transfer_function=transfer_function,
             amplitude_function=amplitude_function,
-            noise_amplitude_function=noise_amplitude_function
+            noise_amplitude_function=self._control_noise_amplitudes
         )
 
+    def _control_noise_amplitudes(self, noise_samples: np.array,
+                                  transferred_parameters: np.array,
+                                  control_amplitudes: np.array,
+                                  **_):
+        """Calculates the noise amplitudes.
+
+        Takes into account the actual optimization parameters and random
+        variations.
+
+        Parameters
+        ----------
+        noise_samples: np.array, shape()
+            Noise samples calculated by the noise trace generator.
+
+        transferred_parameters: np.array
+            Transferred optimization parameters.
+
+        control_amplitudes: np.array
+            Control amplitudes.
+
+        """
+        # noise_amplitudes = np.zeros_like(noise_samples, dtype=complex)
+        noise_amplitudes = np.zeros(
+            (noise_samples.shape[0], noise_samples.shape[1],
+                control_amplitudes.shape[1]), dtype=complex)
+
+        # complex values were requested.
+        for trace_num in range(noise_samples.shape[1]):
+            noise_amplitudes[:, trace_num, :] = self.amplitude_function(
+                transferred_parameters + noise_samples[:, trace_num, :]) \
+                - control_amplitudes
+        return noise_amplitudes
+
 
 class LindbladSolver(SchroedingerSolver):
     r"""
-- 
2.43.0


From 3db0afab070599ef39449260decda5fa7de06aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 37/56] fix: do not pickle the cached pulse sequence of a
 solver

---
 qopt/solver_algorithms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index bb3cf66..b9af0eb 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -427,6 +427,13 @@ class Solver(ABC):
         self._reversed_prop = None
         self.pulse_sequence = None
 
+    def __getstate__(self):
+        # The basis of a pulse sequence does not survive pickling, so that a
+        # copy needs to create its pulse sequence again.
+        state = self.__dict__.copy()
+        state['pulse_sequence'] = None
+        return state
+
     def consistency_checks(self, paranoia_level: int):
         """Checks attributes for inner consistency.
 
-- 
2.43.0


From 742c8c2c079d43db75a260b979de6d71a7ad360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 38/56] fix: do not share the transfer matrix with the caller

---
 qopt/transfer_function.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index dee3301..bd48604 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1358,7 +1358,7 @@ class CustomMTF(MatrixTF):
             offset=offset,
             num_ctrls=num_ctrls
         )
-        self._transfer_matrix = transfer_matrix
+        self._transfer_matrix = np.copy(transfer_matrix)
         self._num_y = transfer_matrix.shape[1]
         self.num_x = transfer_matrix.shape[0]
         self.x_times = x_times
@@ -1370,7 +1370,7 @@ class CustomMTF(MatrixTF):
     @property
     def transfer_matrix(self) -> np.ndarray:
         """See base class."""
-        return self._transfer_matrix
+        return copy.deepcopy(self._transfer_matrix)
 
     def set_times(self, y_times: np.ndarray) -> None:
         """See base class."""
@@ -1447,7 +1447,7 @@ class ExponentialMTF(MatrixTF):
         """See base class."""
         if self._transfer_matrix is None:
             self._calculate_transfer_matrix()
-        return self._transfer_matrix
+        return copy.deepcopy(self._transfer_matrix)
 
     @deprecated
     def old_call(self, x: np.ndarray):
-- 
2.43.0


From 525c2e4497737b89ac07204459812cb9eda37dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:17 +0000
Subject: [PATCH 39/56] fix: do not keep a reference to the convolution kernel
 of the caller

---
 qopt/transfer_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index bd48604..5cdcbd6 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -708,7 +708,7 @@ class ConvolutionTF(TransferFunction):
         if len(kernel.shape) == 1:
             kernel = np.expand_dims(kernel, axis=1)
         assert len(kernel.shape) == 2
-        self.kernel = kernel
+        self.kernel = np.copy(kernel)
         self.mode = mode
         self.cval = cval
 
-- 
2.43.0


From d60ec9510b86984eb95c9143f9d432f7be30725c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:06 +0000
Subject: [PATCH 40/56] fix: derive the oversampling of custom transfer
 functions from the matrix

---
 qopt/transfer_function.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 5cdcbd6..a755a6b 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1376,22 +1376,23 @@ class CustomMTF(MatrixTF):
         """See base class."""
         if not self._explicit_x_times:
             # construct the oversampling
+            num_x, num_y = self._transfer_matrix.shape[:2]
             if self.bound_type is None:
                 # assume no padding
-                self.oversampling = self.num_x // self._num_y
-                if self.num_x % self._num_y:
+                self.oversampling = num_x // num_y
+                if num_x % num_y:
                     raise ValueError('Dimensions of transfer matrix '
                                      'impossible if no padding is used.'
                                      'State the boundary_type!')
             elif self.bound_type[0] == 'n':
-                self.oversampling = (self.num_x - 2
-                                     * self.bound_type[1]) / self._num_y
+                self.oversampling = (num_x - 2
+                                     * self.bound_type[1]) / num_y
             elif self.bound_type[0] == 'x':
-                self.oversampling = self.num_x / (2 * self.bound_type[1]
-                                                   + self._num_y)
+                self.oversampling = num_x / (2 * self.bound_type[1]
+                                                   + num_y)
             elif self.bound_type[0] == 'right_n':
-                self.oversampling = (self.num_x - self.bound_type[
-                    1]) / self._num_y
+                self.oversampling = (num_x - self.bound_type[
+                    1]) / num_y
             else:
                 raise ValueError('Unknown boundary type:'
                                  + str(self.bound_type[0]))
-- 
2.43.0


From d650e1efbf975465620289142da10de94195eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:46 +0000
Subject: [PATCH 41/56] fix: let an annealer run again after it was interrupted

---
 qopt/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 99d52e8..654b6ec 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -899,3 +899,5 @@ class SimulatedAnnealing(Optimizer):
         super().prepare_optimization(
             initial_optimization_parameters=initial_optimization_parameters)
         self.annealer.state = initial_optimization_parameters
+        # an interrupt ends only the run in which it occurs
+        self.annealer.user_exit = False
-- 
2.43.0


From e2561b62b948810e55de934139d0c4aca75219da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 42/56] fix: frequencies of coloured noise with an odd number
 of samples

The spectral density was evaluated on a grid that ends at the Nyquist
frequency, which a discrete Fourier transform of odd length does not contain.
---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index bbe81a8..5f70533 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -300,7 +300,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     delta_white = np.random.randn(*output_shape, actual_n_samples)
     delta_white_ft = np.fft.rfft(delta_white, axis=-1)
     # Only positive frequencies since FFT is real and therefore symmetric
-    f = np.linspace(0, f_nyquist, actual_n_samples // 2 + 1)
+    f = np.fft.rfftfreq(actual_n_samples, d=dt)
     f[1:] = spectral_density(f[1:])
     f[0] = 0
     delta_colored = np.fft.irfft(delta_white_ft * np.sqrt(f / s0),
-- 
2.43.0


From 5c5f2a9bef20701256cb1d1e8103d8bc2758a673 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 43/56] fix: derivative of the matrix exponential by spectral
 decomposition (basis change, degenerate eigenvalues)

The direction was transformed with the eigenvector matrix and its adjoint
interchanged, which is right only for symmetric eigenvector matrices, and
degenerate eigenvalues divided by zero.
---
 qopt/matrix.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 33b4fbc..02a4dc6 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1046,21 +1046,22 @@ class DenseOperator(OperatorMatrix):
         eig_val_cols = eig_val * np.ones(self.shape)
         eig_val_diffs = eig_val_cols - eig_val_cols.T
 
-        # avoid devision by zero
-        eig_val_diffs += np.eye(self.data.shape[0])
+        # avoid devision by zero (eigenvalues can be degenerate)
+        degenerate = eig_val_diffs == 0
+        eig_val_diffs[degenerate] = 1.
 
-        omega = (np.exp(eig_val_diffs * tau) - 1.) / eig_val_diffs
+        omega = np.expm1(eig_val_diffs * tau) / eig_val_diffs
 
-        # override the false diagonal elements.
-        np.fill_diagonal(omega, tau)
+        # override the false elements.
+        omega[degenerate] = tau
 
-        direction_transformed = eig_vec @ direction.data @ eig_vec_dag
+        direction_transformed = eig_vec_dag @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
                         eig_vec_dag)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec_dag @ dk_dalpha @ eig_vec
+        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_dag
         du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
-- 
2.43.0


From 0b4068444739f1e021e9574c4f6a71f1e21388ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 44/56] fix: spectral exponential of operators which are not
 skew hermitian

Without is_skew_hermitian the eigenvectors are in general not orthonormal,
and their matrix must be inverted instead of conjugated.
---
 qopt/matrix.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 02a4dc6..892228d 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -992,13 +992,16 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
+            # the eigenvectors are not orthonormal in general
             eig_val, eig_vec = np.linalg.eig(self.data)
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         # apply the exponential function to the eigenvalues and invert the
         # diagonalization transformation
-        exp = np.einsum('ij,j,kj->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec.conj())
+        exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
+                        eig_vec_inv)
 
         return DenseOperator(exp)
 
@@ -1038,10 +1041,11 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
+            # the eigenvectors are not orthonormal in general
             eig_val, eig_vec = np.linalg.eig(self.data)
-
-        eig_vec_dag = eig_vec.conj().T
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
         eig_val_diffs = eig_val_cols - eig_val_cols.T
@@ -1055,13 +1059,13 @@ class DenseOperator(OperatorMatrix):
         # override the false elements.
         omega[degenerate] = tau
 
-        direction_transformed = eig_vec_dag @ direction.data @ eig_vec
+        direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec_dag)
+                        eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_dag
+        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
         du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
-- 
2.43.0


From 4e8070bb68a7fbc1051bb5dbfc320a88f06b723f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 45/56] fix: gradients of convolution transfer functions

The chain rule is the transposed convolution: the gradients ignored the mode
and added cval, and were wrong at the boundaries and for asymmetric kernels.
---
 qopt/transfer_function.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index a755a6b..cd58228 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -741,7 +741,8 @@ class ConvolutionTF(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another convolution.
+        The application of the chain rule is the transposed linear map, i.e. at
+        the boundaries and for asymmetric kernels not another convolution.
 
         Parameters
         ----------
@@ -761,11 +762,19 @@ class ConvolutionTF(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.convolve(
-            deriv_by_transferred_par,
-            weights=np.expand_dims(self.kernel, axis=1),
-            cval=self.cval
-        )
+        # The constant cval does not contribute to the derivatives.
+        if self.kernel.shape[1] == 1:
+            response = scipy.ndimage.convolve(
+                np.eye(shape[0]), weights=self.kernel, mode=self.mode)
+            return np.einsum('ts,tfc->sfc', response, deriv_by_transferred_par)
+
+        # The kernel mixes the controls.
+        impulses = np.eye(shape[0] * shape[2]).reshape(
+            (shape[0], shape[2], shape[0], shape[2]))
+        response = scipy.ndimage.convolve(
+            impulses, weights=self.kernel[np.newaxis, np.newaxis],
+            mode=self.mode)
+        return np.einsum('sdtc,tfc->sfd', response, deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
@@ -870,7 +879,8 @@ class GaussianConvolution(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another Gaussian filter.
+        The application of the chain rule is the transposed linear map, i.e. at
+        the boundaries not another Gaussian filter.
 
         Parameters
         ----------
@@ -890,10 +900,11 @@ class GaussianConvolution(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.gaussian_filter1d(
-            deriv_by_transferred_par, self.sigma, axis=0, order=self.order,
+        response = scipy.ndimage.gaussian_filter1d(
+            np.eye(shape[0]), self.sigma, axis=0, order=self.order,
             mode=self.mode, truncate=self.truncate
         )
+        return np.einsum('ts,tfc->sfc', response, deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
-- 
2.43.0


From ddff2b27f908660261f51618ec691b5bf96b9a51 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 46/56] fix: gradient of the operation infidelity of the
 closest unitary

The gradient ignored map_to_closest_unitary, and the derivative function
mapped the derivative of the propagator itself to a unitary.
---
 qopt/cost_functions.py | 16 ++++++++++------
 qopt/matrix.py         | 29 +++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 5362196..4ddb948 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -812,14 +812,17 @@ def derivative_entanglement_fidelity_with_du(
         for t in range(num_time_steps):
             # here we need to take the real part.
             if computational_states:
-                derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
-                    trace * ((reversed_propagators[::-1][t + 1]
+                derivative = (reversed_propagators[::-1][t + 1]
                               * propagator_derivatives[ctrl][t]
                               * forward_propagators[t]).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=map_to_closest_unitary
-                    )
-                             * target_unitary_dag).tr())
+                    subspace_indices=computational_states)
+                if map_to_closest_unitary:
+                    derivative = matrix.derivative_closest_unitary(
+                        forward_propagators[-1].truncate_to_subspace(
+                            computational_states),
+                        derivative)
+                derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
+                    trace * (derivative * target_unitary_dag).tr())
             else:
                 derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
                     trace * (reversed_propagators[::-1][t + 1]
@@ -1308,6 +1311,7 @@ class OperationInfidelity(CostFunction):
                 reversed_propagators=self.solver.reversed_propagators,
                 propagator_derivatives=self.solver.frechet_deriv_propagators,
                 computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary
             )
         else:
             raise NotImplementedError('Only the average and entanglement'
diff --git a/qopt/matrix.py b/qopt/matrix.py
index 892228d..4242564 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1456,3 +1456,32 @@ def closest_unitary(matrix: OperatorMatrix):
     left_singular_vec, __, right_singular_vec_h = scipy.linalg.svd(
         matrix.data)
     return type(matrix)(left_singular_vec.dot(right_singular_vec_h))
+
+
+def derivative_closest_unitary(matrix: OperatorMatrix,
+                               direction: OperatorMatrix):
+    """
+    Directional derivative of the closest unitary matrix.
+
+    Parameters
+    ----------
+    matrix : OperatorMatrix
+        The (regular) matrix which is mapped to the closest unitary.
+
+    direction : OperatorMatrix
+        Derivative of the matrix.
+
+    Returns
+    -------
+    derivative : OperatorMatrix
+        The derivative of the closest unitary.
+
+    """
+    left_singular_vec, singular_values, right_singular_vec_h = \
+        scipy.linalg.svd(matrix.data)
+    transformed = left_singular_vec.conj().T @ direction.data \
+        @ right_singular_vec_h.conj().T
+    transformed = (transformed - transformed.conj().T) \
+        / np.add.outer(singular_values, singular_values)
+    return type(matrix)(
+        left_singular_vec @ transformed @ right_singular_vec_h)
-- 
2.43.0


From fca2fd4b6e951a5920ef1b14d25a02520e39a35e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 47/56] fix: rescaled states of a computational subspace and
 their gradients

truncate_to_subspace did not recognise ket vectors and asked numpy for an
unknown norm; the gradient rescaled the derivative instead of deriving the
rescaled state.
---
 qopt/cost_functions.py | 23 +++++++++++++----------
 qopt/matrix.py         |  6 +++---
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 4ddb948..385341d 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -528,17 +528,20 @@ def derivative_state_fidelity(
         for t in range(num_time_steps):
             # here we need to take the real part.
             if computational_states:
+                derivative = (
+                    reversed_propagators[::-1][t + 1]
+                    * propagator_derivatives[ctrl][t]
+                    * forward_propagators[t]
+                ).truncate_to_subspace(subspace_indices=computational_states)
+                if rescale_propagated_state:
+                    state = forward_propagators[-1].truncate_to_subspace(
+                        subspace_indices=computational_states)
+                    norm = state.norm('fro')
+                    overlap = np.real((state.dag() * derivative)[0, 0])
+                    derivative = derivative * (1 / norm) \
+                        - state * (overlap / norm ** 3)
                 derivative_fidelity[t, ctrl] = 2 * np.real(
-                    (scalar_prod * (
-                            target * (
-                            reversed_propagators[::-1][t + 1]
-                            * propagator_derivatives[ctrl][t]
-                            * forward_propagators[t]
-                    ).truncate_to_subspace(
-                        subspace_indices=computational_states,
-                        map_to_closest_unitary=rescale_propagated_state
-                    )
-                    ))[0, 0])
+                    (scalar_prod * (target * derivative))[0, 0])
             else:
                 derivative_fidelity[t, ctrl] = 2 * np.real(
                     (scalar_prod * (target * reversed_propagators[::-1][t + 1]
diff --git a/qopt/matrix.py b/qopt/matrix.py
index 4242564..5c4f781 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1300,12 +1300,12 @@ class DenseOperator(OperatorMatrix):
             # bra-vector
             out = type(self)(self.data[np.ix_([0], subspace_indices)])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
-        elif self.shape[0] == 1:
+                out *= 1 / out.norm('fro')
+        elif self.shape[1] == 1:
             # ket-vector
             out = type(self)(self.data[np.ix_(subspace_indices, [0])])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
+                out *= 1 / out.norm('fro')
         else:
             out = type(self)(self.data[np.ix_(subspace_indices)])
 
-- 
2.43.0


From 15f074884a961f27d46564da3da527dee8e1238d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 48/56] fix: gradient of the noise infidelity of the closest
 unitary

OperationNoiseInfidelity.grad ignored map_to_closest_unitary.
---
 qopt/cost_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 385341d..4f22827 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1443,7 +1443,8 @@ class OperationNoiseInfidelity(CostFunction):
                 propagator_derivatives=
                 self.solver.frechet_deriv_propagators_noise[i],
                 reversed_propagators=self.solver.reversed_propagators_noise[i],
-                computational_states=self.computational_states
+                computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary
             )
             if self.neglect_systematic_errors:
                 temp_target = self._to_comp_space(
@@ -1455,7 +1456,8 @@ class OperationNoiseInfidelity(CostFunction):
                     propagator_derivatives=
                     self.solver.frechet_deriv_propagators,
                     reversed_propagators=self.solver.reversed_propagators,
-                    computational_states=self.computational_states
+                    computational_states=self.computational_states,
+                    map_to_closest_unitary=self.map_to_closest_unitary
                 )
             derivative[:, :, i] = np.real(temp)
         return np.mean(-derivative, axis=2)
-- 
2.43.0


From 31cc0ae1f1d509017abea2280c1193324a973a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 49/56] fix: partial trace over none or all of the subsystems

---
 qopt/matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 5c4f781..be36817 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -946,10 +946,10 @@ class DenseOperator(OperatorMatrix):
         pmat = np.trace(mat.reshape(dims + dims)
                            .transpose(remove + [n_dim + q for q in remove] +
                                       keep + [n_dim + q for q in keep])
-                           .reshape([np.prod(dims_rm),
-                                    np.prod(dims_rm),
-                                    np.prod(dims_keep),
-                                    np.prod(dims_keep)])
+                           .reshape([np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_keep, dtype=int),
+                                    np.prod(dims_keep, dtype=int)])
                         )
 
         if do_copy:
-- 
2.43.0


From e6c5b7b65ab4471e2b32a9456179f87303414c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 50/56] fix: numpy arrays multiplied from the left give
 operators

---
 qopt/matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index be36817..597b677 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -102,6 +102,9 @@ class OperatorMatrix(ABC):
         The stored data. Its type is defined in subclasses.
     """
 
+    # numpy arrays leave the multiplication from the left to __rmul__
+    __array_priority__ = 1000
+
     def __init__(self) -> None:
         self.data = None
         self._size = 0
-- 
2.43.0


From c756ea2b66f8bb6bea9cb9194a0609fea2c6f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 51/56] fix: construction of OperatorMatrixNorm

---
 qopt/cost_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 4f22827..62191b2 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -260,8 +260,7 @@ class OperatorMatrixNorm(CostFunction):
     def __init__(self, solver: solver_algorithms.Solver,
                  target: matrix.OperatorMatrix, mode: str = 'scalar',
                  label: Optional[List[str]] = None):
-        super().__init__()
-        self.solver = solver
+        super().__init__(solver=solver, label=label)
         self.target = target
         self.mode = mode
         if label is not None:
-- 
2.43.0


From d7a94278bf6be23b1e24fec32f29c86f60cba6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 52/56] fix: axis and angle of small rotations

---
 qopt/cost_functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 62191b2..a9fdb0a 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -193,17 +193,19 @@ def angle_axis_representation(u: np.ndarray) \
     # there is an unphysical global phase alpha
     cos_alpha = .5 * (u[0, 0] + u[1, 1])
     # beta in [0, pi) so sin in [0, 1]
-    sin = np.sqrt(1 - np.abs(cos_alpha) ** 2)
+    # calculated without cancellation for small angles
+    sin = .5 * np.linalg.norm([u[0, 1] + u[1, 0], u[0, 1] - u[1, 0],
+                               u[0, 0] - u[1, 1]])
     if np.isclose(0, sin, atol=1e-6):
         return 0, np.array([1, 0, 0])
     n_1_alpha = (u[0, 1] + u[1, 0]) / 1j / sin / 2
     n_2_alpha = (u[0, 1] - u[1, 0]) / sin / 2
     n_3_alpha = (u[0, 0] - u[1, 1]) / 1j / sin / 2
-    if not np.isclose(n_1_alpha, 0):
+    if not np.isclose(n_1_alpha, 0, atol=1e-3):
         alpha = n_1_alpha / np.abs(n_1_alpha)
-    elif not np.isclose(n_2_alpha, 0):
+    elif not np.isclose(n_2_alpha, 0, atol=1e-3):
         alpha = n_2_alpha / np.abs(n_2_alpha)
-    elif not np.isclose(n_3_alpha, 0):
+    elif not np.isclose(n_3_alpha, 0, atol=1e-3):
         alpha = n_3_alpha / np.abs(n_3_alpha)
     else:
         return 0, np.array([1, 0, 0])
-- 
2.43.0


From ed984df9c6f2201f1a8c1b9f551c749c0cf8bc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 53/56] fix: propagators independent of the calculation of
 derivatives

The matrix exponential and its derivative use different approximations for
some of the exponential methods. The propagators were taken from the latter
when derivatives had been requested, thus they depended on the order of the
calls.
---
 qopt/solver_algorithms.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index b9af0eb..4a3c86a 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -960,22 +960,23 @@ class SchroedingerSolver(Solver):
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
                     try:
-                        propagators[t], derivatives[ctrl][t] \
-                            = self._dyn_gen[t].dexp(
+                        derivatives[ctrl][t] = self._dyn_gen[t].dexp(
                             derivative_directions[t][ctrl],
                             self.transferred_time[t],
-                            compute_expm=True, method=self.exponential_method,
+                            compute_expm=False, method=self.exponential_method,
                             is_skew_hermitian=self._is_skew_hermitian)
                     except ValueError:
                         raise ValueError('The computation has failed with '
                                          'a value error. Try another '
                                          'exponentiation method.')
             self._derivative_prop = derivatives
-        else:
-            for t in range(len(self.transferred_time)):
-                propagators[t] = self._dyn_gen[t].exp(
-                    tau=self.transferred_time[t], method=self.exponential_method,
-                    is_skew_hermitian=self._is_skew_hermitian)
+
+        # The propagators must not depend on whether the derivatives are
+        # calculated, thus they are always taken from the exponential.
+        for t in range(len(self.transferred_time)):
+            propagators[t] = self._dyn_gen[t].exp(
+                tau=self.transferred_time[t], method=self.exponential_method,
+                is_skew_hermitian=self._is_skew_hermitian)
         self._prop = propagators
 
     def _compute_propagation_derivatives(self) -> None:
@@ -1371,22 +1372,21 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                 for k in range(n_noise_traces):
                     for t in range(num_t):
                         for ctrl in range(len(self.h_ctrl)):
-                            prop_noise[k][t], \
-                                derivative_prop_noise[k][ctrl][t] \
+                            derivative_prop_noise[k][ctrl][t] \
                                 = self._dyn_gen_noise[k][t].dexp(
                                 derivative_directions[t][ctrl],
                                 self.transferred_time[t],
-                                compute_expm=True,
+                                compute_expm=False,
                                 method=self.exponential_method,
                                 is_skew_hermitian=self._is_skew_hermitian)
                 self._derivative_prop_noise = derivative_prop_noise
-            else:
-                for k in range(n_noise_traces):
-                    for t in range(num_t):
-                        prop_noise[k][t] = self._dyn_gen_noise[k][t].exp(
-                            tau=self.transferred_time[t],
-                            method=self.exponential_method,
-                            is_skew_hermitian=self._is_skew_hermitian)
+
+            for k in range(n_noise_traces):
+                for t in range(num_t):
+                    prop_noise[k][t] = self._dyn_gen_noise[k][t].exp(
+                        tau=self.transferred_time[t],
+                        method=self.exponential_method,
+                        is_skew_hermitian=self._is_skew_hermitian)
 
         elif (type(self.processes) == int and self.processes > 0) \
                 or self.processes is None:
-- 
2.43.0


From 2f44647f6fb57131aa8acc9046f7d03f7fe93499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 54/56] fix: unary amplitude functions return floats, whatever
 the type of the first value

---
 qopt/amplitude_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qopt/amplitude_functions.py b/qopt/amplitude_functions.py
index 832a94c..8d6b588 100644
--- a/qopt/amplitude_functions.py
+++ b/qopt/amplitude_functions.py
@@ -158,8 +158,10 @@ class UnaryAnalyticAmpFunc(AmplitudeFunction):
     def __init__(self,
                  value_function: Callable[[float, ], float],
                  derivative_function: Callable[[float, ], float]):
-        self.value_function = np.vectorize(value_function)
-        self.derivative_function = np.vectorize(derivative_function)
+        self.value_function = np.vectorize(
+            value_function, otypes=[float], signature='()->()')
+        self.derivative_function = np.vectorize(
+            derivative_function, otypes=[float], signature='()->()')
 
     def __call__(self, x: np.ndarray) -> np.ndarray:
         """See base class. """
-- 
2.43.0


From db4502ce3732106a9ca5e766a6ab27d269ab488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:53 +0000
Subject: [PATCH 55/56] fix: spectral derivative of the exponential of strongly
 dissipative operators

---
 qopt/matrix.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 597b677..7afaf8f 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1057,19 +1057,27 @@ class DenseOperator(OperatorMatrix):
         degenerate = eig_val_diffs == 0
         eig_val_diffs[degenerate] = 1.
 
-        omega = np.expm1(eig_val_diffs * tau) / eig_val_diffs
+        # difference quotients of the exponentials of the eigenvalues. Factor out
+        # the larger one, because the other one could be smaller by many orders
+        # of magnitude.
+        exp_eig_val = np.exp(tau * eig_val)
+        larger_col = np.real(eig_val_diffs * tau) > 0
+        sign = np.where(larger_col, -1, 1)
+        omega = np.where(larger_col, exp_eig_val[None, :],
+                         exp_eig_val[:, None])
+        omega = omega * np.expm1(sign * eig_val_diffs * tau) \
+            / (sign * eig_val_diffs)
 
         # override the false elements.
-        omega[degenerate] = tau
+        omega[degenerate] = (tau * exp_eig_val[:, None]
+                             * np.ones(self.shape))[degenerate]
 
         direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
-        exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec_inv)
+        exp = np.einsum('ij,j,jk->ik', eig_vec, exp_eig_val, eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
-        du_dalpha = exp @ dv_dalpha
+        du_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
 
         if compute_expm:
             return exp, du_dalpha
-- 
2.43.0


From 6e612eebd61a24a82b0ccad0302e268f3e8a0b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:24 +0000
Subject: [PATCH 56/56] fix: annealing a pulse of integers truncated fractional
 bounds

---
 qopt/optimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 654b6ec..0bd0935 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -757,7 +757,10 @@ class PulseAnnealer(simanneal.Annealer):
         update_mask = np.random.rand(*random_step.shape)
         random_step[update_mask > self.step_ratio] = 0
 
-        new_pulse = pulse + random_step
+        # A pulse of integers must not truncate the limits.
+        new_pulse = (pulse + random_step).astype(
+            np.result_type(pulse, random_step, *self.bounds)
+        )
 
         # if a limit is exceeded, set the value to the limit
         lower_limit_exceeded = new_pulse < self.bounds[0]
-- 
2.43.0

