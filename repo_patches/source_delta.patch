From f79cb631cd461b2081dfb758d2ad42e4c6dbf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 01/70] fix: evaluate the lowest group again after a restart or
 target change

restart() and change_targets() moved the position to the lowest group but kept the
flag that says the current group has been evaluated, so the next iteration asked a group
that was not evaluated for new voltages.
---
 qtune/autotuner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index cfed351..b0e6841 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -216,6 +216,7 @@ class Autotuner(metaclass=HDF5Serializable):
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
 
     def __getstate__(self):
@@ -294,6 +295,7 @@ class Autotuner(metaclass=HDF5Serializable):
         """ Reads new voltages and communicates them to the member classes. This function can be called when the
         experiment has been configured manually."""
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
         current_voltages = self._experiment.read_gate_voltages()
         for par_tuner in self.tuning_hierarchy:
-- 
2.43.0


From d4b430ef5d698ec1c61418c70e90c2a48da23f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 02/70] fix: load text as text with h5py >= 3

h5py >= 3 returns stored text as bytes, so strings were loaded as "b'...'" and series of
strings as series of bytes.
---
 qtune/storage.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 783a523..ff7d13b 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -45,6 +45,17 @@ def _get_dtype(arr):
     return arr.dtype
 
 
+def _decode(value):
+    """Text is returned as bytes by h5py >= 3."""
+    if isinstance(value, bytes):
+        return value.decode('utf-8')
+    if isinstance(value, np.ndarray) and value.dtype == 'O':
+        decoded = np.empty_like(value)
+        decoded.ravel()[:] = [_decode(v) for v in value.ravel()]
+        return decoded
+    return value
+
+
 def _import_all():
     import qtune.autotuner
     import qtune.evaluator
@@ -241,18 +252,18 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
             if hdf5_obj.attrs['#type'] == 'DataFrame':
                 idx = hdf5_obj.attrs['index']
                 col = hdf5_obj.attrs['columns']
-                result = pd.DataFrame(data=np.asarray(hdf5_obj), index=idx, columns=col)
+                result = pd.DataFrame(data=_decode(np.asarray(hdf5_obj)), index=idx, columns=col)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'Series':
                 idx = hdf5_obj.attrs['index']
-                result = pd.Series(data=np.asarray(hdf5_obj), index=idx)
+                result = pd.Series(data=_decode(np.asarray(hdf5_obj)), index=idx)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'str':
-                result = str(np.asarray(hdf5_obj))
+                result = _decode(hdf5_obj[()])
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From 1926beb50bbfd18efa80511f5f7023d55e25adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 03/70] fix: do not confuse temporary objects while saving

Objects are identified by their id while saving. Objects created by to_hdf5() only for saving
were freed before the end, so that a later object with the same id was stored as a reference
to the wrong object.
---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index ff7d13b..e6a78e8 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -118,6 +118,8 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         serialized[id(obj)] = hdf5_group
 
         data = obj.to_hdf5()
+        # keep temporary objects alive until everything is written because their ids must not be reused
+        serialized.setdefault('#keep_alive', []).append(data)
         for key, value in data.items():
             _to_hdf5(hdf5_group, key, value, serialized)
         return
-- 
2.43.0


From 782cf8f5a30594e0aaa02f291afae468a5c95b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 04/70] fix: reject dictionary keys that cannot be saved

The entry of the key None was silently dropped and a key containing a slash was loaded as a
nested dictionary.
---
 qtune/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index e6a78e8..d4d5efe 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -99,6 +99,8 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         hdf5_group = hdf5_parent_group.create_group(name)
         hdf5_group.attrs['#type'] = 'dict'
         for key, value in obj.items():
+            if not isinstance(key, str) or '/' in key:
+                raise RuntimeError('Cannot save a dictionary with the key {!r}'.format(key))
             _to_hdf5(hdf5_group, key, value, serialized)
         serialized[id(obj)] = hdf5_group
         return
-- 
2.43.0


From 3b2cd135d49acdd268f036126d416af76bfdef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 05/70] fix: do not wait forever for a writer that died

If a write failed after join() had put the stop marker, nobody marked the remaining tasks as
done and join() (also called on deletion) waited forever.
---
 qtune/storage.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index d4d5efe..d44c9f7 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -362,13 +362,12 @@ class AsynchronousHDF5Writer:
         """Stop writing and join thread."""
         if self._worker.is_alive():
             self._queue.put(None)
-            self._queue.join()
-
-        elif self._queue.qsize():
-            warnings.warn("Storage queue contains data but the writer worker is already dead.")
 
         self._worker.join()
 
+        if self._queue.qsize():
+            warnings.warn("Storage queue contains data but the writer worker is already dead.")
+
     def __del__(self):
         self.join()
 
-- 
2.43.0


From 6bacfc8f1e5019783ef47394480e3a2e13ada6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 06/70] fix: evaluate again when the remaining step is smaller
 than the maximal step

If the suggested position was reached before all queued steps were done, the number of queued
steps was never decreased again and the parameters were never evaluated again.
---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fb394b9..3bfac48 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -272,6 +272,9 @@ class SubsetTuner(ParameterTuner):
                 self._number_queued_steps = min(number_of_steps, self._maximal_step_number)
             self._number_queued_steps -= 1
             step *= self._maximal_step_size / np.linalg.norm(step)
+        else:
+            # the required step is done at once
+            self._number_queued_steps = 0
 
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
-- 
2.43.0


From 2e15720c22d38dad13685c9d05080397806d66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 07/70] fix: update the voltages of tuners and gradient
 estimators on restart

The setters intersected labels with voltage values instead of labels, so that the members were not
informed about the new voltages. The voltages are copied first because the lists of tuned and evaluatable
voltages can hold the same object.
---
 qtune/gradient.py        | 3 ++-
 qtune/parameter_tuner.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a699a6a..3cef2cd 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -44,7 +44,8 @@ class GradientEstimator(metaclass=HDF5Serializable):
 
     @current_position.setter
     def current_position(self, new_positions: pd.Series):
-        index_intersection = new_positions.index.intersection(self.current_position)
+        index_intersection = self.current_position.index.intersection(new_positions.index)
+        self._current_position = self._current_position.copy()
         self._current_position[index_intersection] = new_positions[index_intersection]
 
     def change_position(self, new_position: pd.Series):
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 3bfac48..7a2a51e 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -107,7 +107,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         if self.last_voltages is None or self.last_voltages.empty:
             self._last_voltage = new_voltages
         else:
-            index_intersection = self.last_voltages.index.intersection(new_voltages)
+            index_intersection = self.last_voltages.index.intersection(new_voltages.index)
+            # the previous object might be referenced by the lists of tuned and evaluatable voltages
+            self._last_voltage = self._last_voltage.copy()
             self._last_voltage[index_intersection] = new_voltages[index_intersection]
 
     @property
-- 
2.43.0


From 07e4ebf1a20aa3e8802097a4334ef15a284cd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 08/70] fix: forget queued steps on restart

Steps which were queued before the restart prevented the evaluation of the parameters at the new
voltages.
---
 qtune/parameter_tuner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 7a2a51e..057810d 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -281,6 +281,10 @@ class SubsetTuner(ParameterTuner):
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
 
+    def restart(self, new_voltages):
+        self._number_queued_steps = 0
+        super().restart(new_voltages)
+
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
-- 
2.43.0


From c77634b1370710fd7cf7722b52a3ec5b51a003a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 09/70] fix: save the tuned voltages of the sensing dot tuner

The record of tuned voltages and the failure flag were lost by saving and reloading, so that a reloaded
tuner could not recover from a failed evaluation.
---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 057810d..74070b4 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -410,6 +410,9 @@ class SensingDotTuner(ParameterTuner):
                     expensive_evaluators=self._expensive_evaluators,
                     gates=self._tunable_gates,
                     solver=self.solver,
+                    tuned_voltages=self._tuned_voltages,
+                    last_evaluation_failed=self._last_evaluation_failed,
+                    evaluatable_voltages=self._evaluatable_voltages,
                     last_voltage=self._last_voltage,
                     last_parameter_values=self._last_parameter_values,
                     last_parameters_variances=self._last_parameters_variances,
-- 
2.43.0


From 56fed30a5a42f764687548af49ea755b6b0b9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 10/70] fix: match variances by name in the NewtonSolver

The variances were assigned to the gradient estimators by position while the values are assigned by
name.
---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index f32e986..858f9d3 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -245,7 +245,8 @@ class NewtonSolver(Solver):
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
         for estimator, value, value_index, variance in zip(self._gradient_estimators,
                                                            values[self._current_values.index],
-                                                           self._current_values.index, variances):
+                                                           self._current_values.index,
+                                                           variances[self._current_values.index]):
             if not math.isnan(self.target.desired[value_index]):
                 estimator.update(position, value, variance, is_new_position=True)
         self._current_position = position[self._current_position.index]
-- 
2.43.0


From 51995926422d21ec85b15fa495a333540a24a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 11/70] fix: initialize the Kalman filter of the
 SelfInitializingKalmanEstimator

A missing comma, missing arguments and the missing step size of from_scratch made the initialization fail as
soon as the finite differences were complete.
---
 qtune/gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 3cef2cd..da076f9 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -394,7 +394,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
         finite_differences_estimator = FiniteDifferencesGradientEstimator(current_position=current_position,
                                                                           epsilon=epsilon,
                                                                           symmetric=symmetric)
-        kalman_arguments = dict(maximum_covariance=maximum_covariance)
+        kalman_arguments = dict(maximum_covariance=maximum_covariance, epsilon=epsilon)
 
         return cls(finite_difference_estimator=finite_differences_estimator,
                    kalman_arguments=kalman_arguments)
@@ -447,8 +447,8 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
             kalman_gradient = KalmanGradient(n_pos_dim=initial_estimate.size,
                                              n_values=1,
                                              initial_gradient=initial_estimate,
-                                             initial_covariance_matrix=self.finite_difference_estimator.covariance()
-                                             **self._kalman_gradient_arguments)
+                                             initial_covariance_matrix=self.finite_difference_estimator.covariance(),
+                                             **(self._kalman_gradient_arguments or {}))
             self._kalman_estimator = KalmanGradientEstimator(kalman_gradient=kalman_gradient,
                                                              current_position=position[initial_estimate.index],
                                                              current_value=value,
-- 
2.43.0


From 9700da8b38c8e6c3e1636ab9ec830771284dc5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 12/70] fix: restart the members of the
 SelfInitializingKalmanEstimator

The value at the position before the restart was kept together with the new position.
---
 qtune/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index da076f9..0762f25 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -454,6 +454,11 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
                                                              current_value=value,
                                                              **self._kalman_arguments)
 
+    def restart(self, new_position):
+        self._finite_difference_estimator.restart(new_position)
+        if self.kalman_estimator:
+            self.kalman_estimator.restart(new_position)
+
     def to_hdf5(self):
         return dict(finite_difference_estimator=self._finite_difference_estimator,
                     kalman_estimator=self._kalman_estimator,
-- 
2.43.0


From 6107171270637a32c348738f5f97a04945346688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 13/70] fix: restore the gate voltages if the measurement of a
 lead transition fails

The gate stayed shifted by the width of the charge diagram.
---
 qtune/evaluator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 008e6d9..d30378c 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -539,9 +539,11 @@ class LeadTransition(Evaluator):
         raw_data = []
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
-            self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
-            raw_data.append(self.experiment.measure(measurement))
-            self.experiment.set_gate_voltages(current_gate_voltages)
+            try:
+                self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
+                raw_data.append(self.experiment.measure(measurement))
+            finally:
+                self.experiment.set_gate_voltages(current_gate_voltages)
         transition_positions, error = self.process_raw_data(raw_data=raw_data)
 
         # TODO: this should be obsolete
-- 
2.43.0


From 9533f08ab04e2ad9622f80eca5e85f6e2cfc8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 14/70] fix: use the options of each scan and the given width
 in LeadTransition

Center, range and number of points of the first scan were used for all scans and the transition width was
ignored and not saved.
---
 qtune/evaluator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index d30378c..829de89 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -556,15 +556,15 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, gate in zip(raw_data, self._shifting_gates):
+        for data, gate, measurement in zip(raw_data, self._shifting_gates, self.measurements):
             if len(data.shape) == 2:
                 data = data.mean(0)
             transition_pos = \
-                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / self.measurements[0].options["range"] *
-                                                          self.measurements[0].options["N_points"]))
-            x_data = np.linspace(start=self._measurements[0].options['center'] - self.measurements[0].options['range'],
-                                 stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
-                                 num=self.measurements[0].options['N_points'])
+                qtune.util.new_find_lead_transition_index(data, int(self.transition_width / measurement.options["range"]
+                                                                    * measurement.options["N_points"]))
+            x_data = np.linspace(start=measurement.options['center'] - measurement.options['range'],
+                                 stop=measurement.options['center'] + measurement.options['range'],
+                                 num=measurement.options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
             self.transition_positions["position_" + gate] = x_data[transition_pos]
@@ -576,7 +576,7 @@ class LeadTransition(Evaluator):
                     transition_positions=self.transition_positions,
                     shifting_gates=self._shifting_gates,
                     charge_diagram_width=self._charge_diagram_width,
-                    transition_width=.2e-3)
+                    transition_width=self.transition_width)
 
 
 class SensingDot1D(Evaluator):
-- 
2.43.0


From bab027553652da4422917d601d454958bf4543b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 15/70] fix: use an integer index for the current signal of
 SensingDot1D

The evaluation always failed because the index was a float.
---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 829de89..d9a77e9 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -654,7 +654,7 @@ class SensingDot1D(Evaluator):
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
-        self.current_signal = derivative_approximation[0.5 * self.measurements[0].options['N_points']]
+        self.current_signal = derivative_approximation[len(derivative_approximation) // 2]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
 
-- 
2.43.0


From 5ff669a18958892e31cc8e96c7fcc10905890713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 16/70] fix: save the flank of the sensing dot scans and the
 sample rate of the lead scan

These settings were lost by saving and reloading.
---
 qtune/evaluator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index d9a77e9..9e7c558 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -199,6 +199,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
+                    sample_rate=self.sample_rate,
                     evaluation_arguments=self.evaluation_arguments)
 
 
@@ -596,7 +597,7 @@ class SensingDot1D(Evaluator):
                  optimal_signal=None,
                  optimal_position=None,
                  name='SensingDot1D',
-                 rising_flank=Optional[bool]):
+                 rising_flank: Optional[bool]=None):
         self._sweeping_gate = sweeping_gate
         self.current_signal = current_signal
         self.optimal_signal = optimal_signal
@@ -663,7 +664,8 @@ class SensingDot1D(Evaluator):
                     sweeping_gate=self._sweeping_gate,
                     current_signal=self.current_signal,
                     optimal_signal=self.optimal_signal,
-                    optimal_position=self.optimal_position)
+                    optimal_position=self.optimal_position,
+                    rising_flank=self._rising_flank)
 
 
 class SensingDot2D(Evaluator):
@@ -767,7 +769,8 @@ class SensingDot2D(Evaluator):
         return dict(super().to_hdf5(),
                     sweeping_gates=self._sweeping_gates,
                     scan_range=self._scan_range,
-                    new_voltages=self._new_voltages)
+                    new_voltages=self._new_voltages,
+                    rising_flank=self._rising_flank)
 
 
 class AveragingEvaluator(Evaluator):
-- 
2.43.0


From 61c448d17cdf82861e1c008496aae9cd3a50f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 17/70] fix: use an integer number of points in the simulated
 detuning scan

np.linspace does not accept a float.
---
 qtune/basic_dqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 6ab8e3e..db1dca8 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -133,7 +133,7 @@ def detune_simulation(gate_voltages, measurement: Measurement, simulation_option
     right_gate = simulation_options["right_gate"]
     parameters = measurement.options.copy()
     parameters['file_name'] = "detune_scan_" + measurement.get_file_name()
-    parameters['N_points'] = float(parameters['N_points'])
+    parameters['N_points'] = int(parameters['N_points'])
     parameters['N_average'] = float(parameters['N_average'])
 
     x = np.linspace(parameters["center"] - parameters["range"], parameters["center"] + parameters["range"],
-- 
2.43.0


From ab2cd7acbc5eb19246056a4659d5a26ebe5152f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 18/70] fix: copy the initial voltages in the TestExperiment

Setting voltages changed the series of the caller and vice versa.
---
 qtune/basic_dqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index db1dca8..9310c4c 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -68,7 +68,7 @@ class TestExperiment(Experiment):
         :param measurements: Measurements known to the Experiment.
         :param simulator_dict: Maps Measurements by their id to Simulators.
         """
-        self._gate_voltages = initial_voltages
+        self._gate_voltages = initial_voltages.copy()
 
         self._measurements = measurements
         self._simulator_dict = simulator_dict
-- 
2.43.0


From 81ff3da9a3dfc4b0060f7bea4c0adb79e72d55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 19/70] fix: use the logger instead of its name in the GUI

Start, step and pause as well as the worker thread called logging methods on the name of the logger, so that
the worker thread died at the first message and could not be restarted.
---
 qtune/gui.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 41ac735..f3c3aca 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -476,6 +476,7 @@ class GUI(QtWidgets.QMainWindow):
         super().__init__()
         self._auto_tuner = auto_tuner
         self._history = history
+        self._logger = logger
 
         self.setWindowTitle('QTune: Main Window')
         self.resize(1000, 500)
@@ -565,8 +566,6 @@ class GUI(QtWidgets.QMainWindow):
         self._stop = False
         self._thread.start()
 
-        self._logger = logger
-
         self._plot_organizer = []
         self._parameter_windows = []
         self._gradient_windows = []
@@ -684,13 +683,13 @@ class GUI(QtWidgets.QMainWindow):
 
     def _join_worker(self):
         if self._thread.is_alive():
-            self._logger.info('Joining thread')
+            self.logger.info('Joining thread')
         self._stop = True
         self._thread.join()
 
     def restart_thread(self):
         self._join_worker()
-        self._logger.info('Restarting thread')
+        self.logger.info('Restarting thread')
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -707,7 +706,7 @@ class GUI(QtWidgets.QMainWindow):
                     try:
 
                         if self.auto_tuner.is_tuning_complete():
-                            self._logger.info('Tuning completed')
+                            self.logger.info('Tuning completed')
                             self.pause()
                         else:
                             self.auto_tuner.iterate()
@@ -718,10 +717,10 @@ class GUI(QtWidgets.QMainWindow):
                             self._update_plots.emit()
 
                     except Exception:
-                        self._logger.exception('Error during auto tuner iteration: Pausing...')
+                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
                 else:
-                    self._logger.error('No Autotuner: Pausing...')
+                    self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
                 self._stepped = False
@@ -731,14 +730,14 @@ class GUI(QtWidgets.QMainWindow):
 
     def start(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
         elif self._continuous:
-            self._logger.info('Already started')
+            self.logger.info('Already started')
 
         else:
-            self._logger.info('Starting worker thread')
+            self.logger.info('Starting worker thread')
 
         self._continuous = True
         self._start_btn.setEnabled(False)
@@ -747,19 +746,19 @@ class GUI(QtWidgets.QMainWindow):
 
     def step(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
-        self._logger.info('Order worker to do one step')
+        self.logger.info('Order worker to do one step')
         self._stepped = True
 
     def pause(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread already dead')
+            self.logger.warning('Worker thread already dead')
         elif self._continuous:
-            self._logger.info('Pausing worker thread')
+            self.logger.info('Pausing worker thread')
         elif not self._stepped:
-            self._logger.info('Already paused')
+            self.logger.info('Already paused')
 
         self._continuous = False
         self._stepped = False
-- 
2.43.0


From a76428a6a165de83fd283a3b37baac6228f5a5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 20/70] fix: stop the worker thread of the GUI during
 continuous tuning

Closing the window waited for the worker thread, which ignored the request to stop while tuning continuously.
---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index f3c3aca..50b7a59 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -701,7 +701,7 @@ class GUI(QtWidgets.QMainWindow):
             while not (self._stop or self._continuous or self._stepped):
                 time.sleep(0.05)
 
-            while self._continuous or self._stepped and not self._stop:
+            while (self._continuous or self._stepped) and not self._stop:
                 if self.auto_tuner:
                     try:
 
-- 
2.43.0


From 44317424a64685dee49e3e7e7939906d1f7f04ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 21/70] fix: do not lose a step ordered while a step is in
 progress

The order was deleted at the end of the step in progress.
---
 qtune/gui.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 50b7a59..1c077df 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -702,6 +702,7 @@ class GUI(QtWidgets.QMainWindow):
                 time.sleep(0.05)
 
             while (self._continuous or self._stepped) and not self._stop:
+                self._stepped = False
                 if self.auto_tuner:
                     try:
 
@@ -723,8 +724,6 @@ class GUI(QtWidgets.QMainWindow):
                     self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
-                self._stepped = False
-
     def log(self, msg: str):
         self._log_signal.emit(msg)
 
-- 
2.43.0


From ccbfa33c399dccbb10a24f811a56a4db9b120f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 22/70] fix: do not mix up parameters and gates with similar
 names in the history

The patterns were not anchored and names were not escaped, so that e.g. the gradient of the parameter "xp" was
returned as gradient of "p" as well, and gates with other characters than letters, digits and blanks were missed.
---
 qtune/history.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c074e76..a2546fc 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -209,8 +209,8 @@ class History:
         :param parameter_name: Parameter of the gradient of interest.
         :return: Gradient history.
         """
-        regex = re.compile(self._gradient_name.format(parameter_name=parameter_name,
-                                                      gate_name=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
+                                                            gate_name=r'([^#]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -219,9 +219,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: Gradient covariance history.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'([\w\s\d]+)',
-                                                                 gate_name_2=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'([^#]+)',
+                                                                       gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
 
@@ -233,9 +233,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: History of the diagonal of the covariance matrix.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'(?P<gatename>[\w\s\d]+)',
-                                                                 gate_name_2=r'(?P=gatename)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'(?P<gatename>[^#]+)',
+                                                                       gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
     def read_autotuner_to_data_frame(self, autotuner: qtune.autotuner.Autotuner, start: int = 0,
-- 
2.43.0


From 94408f96eb17f22ba5b478551f082b9f51aa0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 23/70] fix: return the values of the gradient covariances in
 the history

Selecting the new labels instead of renaming the columns returned only NaN.
---
 qtune/history.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index a2546fc..0a5f0a9 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -225,7 +225,9 @@ class History:
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
 
-        return pd.DataFrame(df, columns=pd.MultiIndex.from_tuples(map(regex.findall, df.columns)))
+        df.columns = pd.MultiIndex.from_tuples([regex.match(name).groups() for name in df.columns],
+                                               names=['gate_1', 'gate_2'])
+        return df
 
     def get_gradient_variances(self, parameter_name) -> pd.DataFrame:
         """
-- 
2.43.0


From c14db2034acac5bb0b6b75e9d68c87dd5b85702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 24/70] fix: allow estimators without estimate in the history

The class Series was used instead of an empty series, so that no tuner with a finite differences estimator
could be added to a history before its gradient was known.
---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 0a5f0a9..f39673a 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -562,11 +562,11 @@ def extract_gradients_from_hierarchy(tuning_hierarchy) -> (Dict[str, pd.Series],
         if isinstance(tuner.solver, qtune.solver.NewtonSolver):
             for i, grad_est in enumerate(tuner.solver.gradient_estimators):
                 if grad_est.estimate() is None:
-                    gradients[tuner.solver.target.index[i]] = pd.Series
+                    gradients[tuner.solver.target.index[i]] = pd.Series(dtype=float)
                 else:
                     gradients[tuner.solver.target.index[i]] = grad_est.estimate()
                 if grad_est.covariance() is None:
-                    covariances[tuner.solver.target.index[i]] = pd.Series
+                    covariances[tuner.solver.target.index[i]] = pd.DataFrame()
                 else:
                     covariances[tuner.solver.target.index[i]] = grad_est.covariance()
     return gradients, covariances
-- 
2.43.0


From 0e6c93bbbd021f81ac4ba1b9b2b851a6b0f07771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 25/70] fix: continue the history after a restart of the tuner

A row was added without the position in the hierarchy and without a row of raw data, so that the next state could not
be added and raw data were attributed to wrong rows.
---
 qtune/history.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index f39673a..4a05edd 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -253,7 +253,7 @@ class History:
             end = len(autotuner.tuning_hierarchy)
         elif end == 0:
             voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy)
-            return pd.DataFrame(dict(voltages), index=[0, ])
+            return pd.DataFrame(dict(voltages, tuner_index=autotuner.current_tuner_index), index=[0, ], dtype=float)
 
         if self._data_frame.empty:
             voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy)
@@ -324,6 +324,9 @@ class History:
             new_information = self.read_autotuner_to_data_frame(autotuner, end=evaluated_tuner_index)
             self._data_frame = self._data_frame.append(new_information, ignore_index=True, sort=True)
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)
+            if new_evaluator_data.empty:
+                # keep one row for each row of the parameters
+                new_evaluator_data = pd.DataFrame(index=[0, ])
             self._evaluator_data = self._evaluator_data.append(new_evaluator_data, ignore_index=True, sort=True)
 
     def load_directory(self, path):
-- 
2.43.0


From 7fa20ce7013b7be640342335c8333af1957e294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 26/70] fix: ignore subdirectories when loading the history

The files of a reloaded tuner are stored in a subdirectory of the original directory, which then could not be
loaded anymore.
---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 4a05edd..32d34ad 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -337,7 +337,8 @@ class History:
         """
         with qtune.storage.ParallelHDF5Reader(reserved={'experiment': self.experiment}, multiprocess=False) as reader:
             directory_content = [os.path.join(path, file)
-                                 for file in sorted(os.listdir(path))]
+                                 for file in sorted(os.listdir(path))
+                                 if os.path.isfile(os.path.join(path, file))]
             for file, loaded_data in zip(directory_content, reader.read_iter(directory_content)):
                 autotuner = loaded_data['autotuner']
                 self.append_autotuner(autotuner, file)
-- 
2.43.0


From 62dad745a9134ddf834cefd43462b46e53f25d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 27/70] fix: ignore redundant measurements in the finite
 differences

---
 qtune/gradient.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 0762f25..d9ba1b8 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -168,7 +168,12 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
 
             else:
                 self.logger.debug('Gradient estimation by asymmetric calculation.')
-                if len(measured_points) == 1:
+                distance = (measured_points[0] - self._current_position[gates]) / self._epsilon[gates]
+                if len(measured_points) == 1 and np.linalg.norm(distance.astype(float)) > .5:
+                    #  the base point itself has not been measured yet
+                    self._requested_measurements.append(self._current_position[gates])
+                    return self._requested_measurements[-1]
+                elif len(measured_points) == 1:
                     measured_point_diffs = [pd.Series(index=measured_points[0].index, data=0)]
                 elif len(measured_points) <= self._current_position.size:
                     #  request arbitrary orthogonal vector
@@ -180,6 +185,23 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
 
             return self._requested_measurements[-1]
 
+    def _is_independent(self, position: pd.Series) -> bool:
+        """
+        Checks if a measurement adds a new direction to the stored measurements. This is not the case if an evaluation
+        is repeated at the same voltages or for the center of symmetric differences.
+        """
+        points = [v for v, *_ in self._stored_measurements] + [position]
+        if self._symmetric_calculation:
+            if len(points) % 2 == 1:
+                points.append(self._current_position)
+            differences = [v2 - v1 for v1, v2 in zip(points[::2], points[1::2])]
+        else:
+            differences = [v - points[0] for v in points[1:]]
+        if not differences:
+            return True
+        differences = np.stack([(diff / self._epsilon).astype(float) for diff in differences])
+        return np.linalg.matrix_rank(differences, tol=1e-6) == len(differences)
+
     def update(self, position: pd.Series, value: float, variance: float, is_new_position=False):
         position = position[self._current_position.index.intersection(position.index)]
 
@@ -190,6 +212,10 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
+            if not self._is_independent(position[self._current_position.index]):
+                self.logger.info('The measurement does not contribute to the estimation of the gradient.')
+                return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
@@ -215,6 +241,12 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
             self._current_estimate = gradient
             self._covariance = covariance
 
+    def restart(self, new_position):
+        if self._current_estimate is None:
+            # the differences are measured around the new position
+            self._stored_measurements = []
+        super().restart(new_position)
+
     def to_hdf5(self):
         return dict(current_position=self._current_position,
                     epsilon=self._epsilon,
-- 
2.43.0


From f0e1f478f8c9d5f67d5529d4fa3fdc76f27570d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 28/70] fix: complete the moves of the NelderMeadSolver

---
 qtune/solver.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 858f9d3..16d91fe 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -374,7 +374,8 @@ class NelderMeadSolver(Solver):
         positions = self.get_positions()
         worst_position = positions[-1]
 
-        m = pd.DataFrame(positions).mean(axis=0)
+        #  the centroid of all points but the worst
+        m = pd.DataFrame(positions[:-1]).mean(axis=0)
         r = 2 * m - worst_position
         s = m + 2 * (m - worst_position)
         c = m + (r - m) / 2
@@ -440,6 +441,7 @@ class NelderMeadSolver(Solver):
             else:
                 # costs[0] <= new_cost < costs[-2]
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
         elif self._state == self.State.expand:
             reflected_pos, reflected_val = self._reflected_point
@@ -450,6 +452,7 @@ class NelderMeadSolver(Solver):
                 self._insert_into_simplex(position, values)
             else:
                 self._insert_into_simplex(reflected_pos, reflected_val)
+            self._state = self.State.start_iteration
 
         elif self._state == self.State.contract_outside:
             reflected_pos, reflected_val = self._reflected_point
@@ -458,6 +461,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < reflection_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -468,6 +472,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < worst_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -476,9 +481,10 @@ class NelderMeadSolver(Solver):
             self._shrunk_points.append((position, values))
 
             if len(self._shrunk_points) == len(self._current_position):
-                for shrink_point in self._shrunk_points:
-                    self._insert_into_simplex(*shrink_point)
+                self._simplex[1:] = self._shrunk_points
+                self._simplex = self._get_sorted_simplex()
                 self._shrunk_points = []
+                self._state = self.State.start_iteration
 
         else:
             # we just got a point without requesting it
-- 
2.43.0


From 543c15942f8dc6527b9947ae50826b7724a3476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 29/70] fix: save the NelderMeadSolver

---
 qtune/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 16d91fe..e485f04 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -285,14 +285,14 @@ class NelderMeadSolver(Solver):
                  current_values: pd.Series,
                  reflected_point: Optional[Tuple[pd.Series, pd.Series]] = None,
                  shrunk_points: Optional[Sequence[Tuple[pd.Series, pd.Series]]] = None,
-                 cost_function: Callable = lambda v: np.sum(v * v),
+                 cost_function: Optional[Callable] = None,
                  state='built_up'):
         """
 
         :param target:
         :param simplex:
         :param span: Used to build up the initial simplex
-        :param cost_function:
+        :param cost_function: The sum of the squares is used by default.
         :param current_position:
         """
         if 'desired' not in target:
@@ -345,7 +345,7 @@ class NelderMeadSolver(Solver):
         if self._cost_function:
             return self._cost_function(values)
         else:
-            np.sum(values * values)
+            return np.sum(values * values)
 
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
@@ -508,7 +508,7 @@ class NelderMeadSolver(Solver):
                     reflected_point=self._reflected_point,
                     shrunk_points=self._shrunk_points,
                     cost_function=self._cost_function,
-                    state=str(self._state))
+                    state=self._state.value)
 
 
 class ForwardingSolver(Solver):
-- 
2.43.0


From 4ace8cac2815f59d88581969b4df023403221041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 30/70] fix: use the NelderMeadSolver in a ParameterTuner

---
 qtune/solver.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index e485f04..4a43d3c 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -88,6 +88,8 @@ class Solver(metaclass=HDF5Serializable):
     @current_position.setter
     def current_position(self, new_position: pd.Series):
         labels = self._current_position.index.intersection(new_position.index)
+        # the previous object might be referenced elsewhere (i.e. in a simplex)
+        self._current_position = self._current_position.copy()
         self._current_position[labels] = new_position[labels]
 
     @property
@@ -328,10 +330,6 @@ class NelderMeadSolver(Solver):
                    current_values=current_values,
                    simplex=simplex)
 
-    @property
-    def target(self):
-        return self._target
-
     @property
     def simplex(self) -> Deque[Tuple[pd.Series, pd.Series]]:
         """Sorted chronologically if state=built_up otherwise sorted by cost"""
@@ -350,10 +348,6 @@ class NelderMeadSolver(Solver):
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
 
-    @property
-    def current_position(self) -> pd.Series:
-        return self._current_position
-
     @property
     def current_values(self) -> pd.Series:
         return self._current_values
@@ -370,7 +364,17 @@ class NelderMeadSolver(Solver):
         self._simplex = self._get_sorted_simplex()
         self._simplex.pop()
 
-    def suggest_next_position(self) -> pd.Series:
+    @property
+    def state(self) -> pd.Series:
+        return pd.Series(self.get_costs(), dtype=float)
+
+    def restart(self, new_position):
+        super().restart(new_position)
+        self._shrunk_points = []
+        if self._state != self.State.build_up:
+            self._state = self.State.start_iteration
+
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
         worst_position = positions[-1]
 
@@ -416,7 +420,13 @@ class NelderMeadSolver(Solver):
         values = values[self._current_values.index]
 
         if len(self.simplex) < len(self.current_position) + 1:
-            self.simplex.append((position, values))
+            if any(np.allclose(position, known_position, rtol=0, atol=1e-7) for known_position in self.get_positions()):
+                #  the point is already part of the simplex (i.e. the starting point)
+                self._simplex = [(known_position, values) if np.allclose(position, known_position, rtol=0, atol=1e-7)
+                                 else (known_position, known_values)
+                                 for known_position, known_values in self.simplex]
+            else:
+                self.simplex.append((position, values))
 
             if len(self.simplex) == len(self.current_position) + 1:
                 self._simplex = self._get_sorted_simplex()
-- 
2.43.0


From 1a3784af4b6ff8e4456017c110b1d46be1a047f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 31/70] fix: load stored measurements of the finite differences

---
 qtune/gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index d9ba1b8..2ee338e 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -115,8 +115,8 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         self._covariance = covariance
 
         if stored_measurements is not None:
-            for measurement in stored_measurements:
-                pd.testing.assert_index_equal(measurement.index, epsilon.index)
+            for position, *_ in stored_measurements:
+                pd.testing.assert_index_equal(position.index, self._current_position.index)
         self._stored_measurements = stored_measurements or []
 
         # only for debugging purposes
-- 
2.43.0


From 9c7a1e6a515b4e88541b2640dc4d951938ecb5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 32/70] fix: include the correlation of differences to a common
 base point

---
 qtune/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index a46e05d..3892dfc 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -189,11 +189,12 @@ def calculate_gradient_non_orthogonal(positions: Sequence[np.ndarray],
 
     if variances:
         if n_points == n_dim + 1:
-            diff_variances = np.stack(variances[1:]) + variances[0]
+            # all differences share the value at the base point
+            diff_covariance = np.diag(np.stack(variances[1:])) + variances[0]
         else:
-            diff_variances = np.stack(variances[1::2]) + np.stack(variances[::2])
+            diff_covariance = np.diag(np.stack(variances[1::2]) + np.stack(variances[::2]))
 
-        gradient_covariance = inverted_volt_diffs.T @ np.diag(diff_variances) @ inverted_volt_diffs
+        gradient_covariance = inverted_volt_diffs.T @ diff_covariance @ inverted_volt_diffs
         return gradient, gradient_covariance
 
     return gradient
-- 
2.43.0


From c6b168dde463e81ce155fba94bfc3f9b642b271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:21 +0000
Subject: [PATCH 33/70] fix: do not move parameters without desired value
 towards zero

---
 qtune/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 4a43d3c..7850d83 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -231,7 +231,7 @@ class NewtonSolver(Solver):
         # our jacobian is sufficiently accurate
         # nan targets are replaced with the current values
 
-        required_diff = self.target.desired.add(-1 * self._current_values, fill_value=0).fillna(0)
+        required_diff = (self.target.desired - self._current_values).fillna(0)
 
         jacobian = self.jacobian[self._current_position.index]
 
-- 
2.43.0


From 73ee4726c406e5082a9222cc4a7df64502ca5da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:21 +0000
Subject: [PATCH 34/70] fix: allow parameters without desired value and without
 gradient in the NewtonSolver

---
 qtune/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 7850d83..55c5c55 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -211,7 +211,7 @@ class NewtonSolver(Solver):
         tuned_estimators = [gradient
                             for i, gradient in enumerate(self._gradient_estimators)
                             if self.target.index[i] in tuned_parameters]
-        tuned_gradients = [gradient.estimate() for gradient in tuned_estimators]
+        tuned_gradients = [gradient.estimate() for gradient in tuned_estimators if gradient.estimate() is not None]
         if len(tuned_gradients) == 0:
             tuned_jacobian = None
         else:
@@ -238,7 +238,8 @@ class NewtonSolver(Solver):
         # we want the new default behaviour since numpy 1.14
         # passing None does not work on older versions
         rcond = np.finfo(float).eps * max(jacobian.shape)
-        step, *_ = np.linalg.lstsq(jacobian, required_diff, rcond=rcond)
+        # there is no gradient for parameters without desired value if it is neither given nor measured
+        step, *_ = np.linalg.lstsq(jacobian, required_diff[jacobian.index], rcond=rcond)
 
         # this is not exactly Newton
 
-- 
2.43.0


From 9c28b0f37af9f4f657b612ebc4934eee789bf697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 35/70] fix: TestExperiment lists its measurements and gates as
 properties like the interface

---
 qtune/basic_dqd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 9310c4c..32fd7ad 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -81,11 +81,13 @@ class TestExperiment(Experiment):
     def simulator_dict(self):
         return self._simulator_dict
 
+    @property
     def measurements(self):
-        return self._measurements
+        return tuple(self._measurements)
 
+    @property
     def gate_voltage_names(self):
-        return self._gate_voltages.index
+        return tuple(self._gate_voltages.index)
 
     def read_gate_voltages(self):
         return self._gate_voltages.sort_index()
-- 
2.43.0


From 03b8cce1ab712e6c44ca54a828481091d21136a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 36/70] fix: do not store values measured at other voltages in
 the history

---
 qtune/history.py         | 46 +++++++++++++++++++++++++++++++---------
 qtune/parameter_tuner.py |  1 +
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 32d34ad..5aedda6 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -259,7 +259,10 @@ class History:
             voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy)
             self._gate_names = set(voltages.index)
             parameters, variances = extract_parameters_from_hierarchy(autotuner.tuning_hierarchy)
-            self._parameter_names = set(parameters.index)
+            self._parameter_names = set(name for par_tuner in autotuner.tuning_hierarchy
+                                        for name in extract_parameter_names(par_tuner))
+            parameters = parameters.reindex(sorted(self._parameter_names))
+            variances = variances.reindex(sorted(self._parameter_names))
             gradients, grad_covariances = extract_gradients_from_hierarchy(autotuner.tuning_hierarchy)
             self._gradient_controlled_parameters = {parameter_name: set(gradient.index) or set()
                                                     for parameter_name, gradient in gradients.items()}
@@ -543,19 +546,42 @@ def extract_voltages_from_hierarchy(tuning_hierarchy) -> pd.Series:
     return tuning_hierarchy[0].last_voltages
 
 
+def extract_parameter_names(par_tuner) -> pd.Index:
+    """
+    :param par_tuner: ParameterTuner
+    :return: Names of the parameters of the ParameterTuner which are stored in the History.
+    """
+    if isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner):
+        return par_tuner.solver.target.desired.index[~par_tuner.solver.target.desired.apply(np.isnan)]
+    return par_tuner.last_parameters_and_variances[0].index
+
+
+def is_evaluated(par_tuner) -> bool:
+    """
+    :param par_tuner: ParameterTuner
+    :return: False if the evaluation of the SubsetTuner was skipped at its last voltages because of queued steps.
+    """
+    if not isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner) or par_tuner.last_evaluation_failed:
+        return True
+    evaluatable_voltages = par_tuner._evaluatable_voltages
+    return bool(evaluatable_voltages) and par_tuner.last_voltages.sort_index().equals(
+        evaluatable_voltages[-1].sort_index())
+
+
 def extract_parameters_from_hierarchy(tuning_hierarchy) -> (pd.Series, pd.Series):
     parameters = pd.Series()
     variances = pd.Series()
     for par_tuner in tuning_hierarchy:
+        if not is_evaluated(par_tuner):
+            continue
         parameter, variance = par_tuner.last_parameters_and_variances
-        if isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner):
-            relevant_parameters = par_tuner.solver.target.desired.index[
-                ~par_tuner.solver.target.desired.apply(np.isnan)]
-            parameters = parameters.append(parameter[relevant_parameters])
-            variances = variances.append(variance[relevant_parameters])
-        else:
-            parameters = parameters.append(parameter)
-            variances = variances.append(variance)
+        relevant_parameters = extract_parameter_names(par_tuner)
+        if isinstance(par_tuner, qtune.parameter_tuner.SensingDotTuner) and par_tuner.cheap_evaluation_only:
+            # the results of the expensive evaluators belong to previous voltages
+            cheap_parameters = set(name for evaluator in par_tuner.cheap_evaluators for name in evaluator.parameters)
+            relevant_parameters = [name for name in relevant_parameters if name in cheap_parameters]
+        parameters = parameters.append(parameter[relevant_parameters])
+        variances = variances.append(variance[relevant_parameters])
     return parameters, variances
 
 
@@ -597,7 +623,7 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
                 if evaluator.raw_data is not None:
                     eval_data = evaluator.to_hdf5()
                     evaluator_data[evaluator.name] = [eval_data, ]
-        else:
+        elif is_evaluated(par_tuner):
             for evaluator in par_tuner.evaluators:
                 if evaluator.raw_data is not None:
                     eval_data = evaluator.to_hdf5()
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 74070b4..e5c947b 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -360,6 +360,7 @@ class SensingDotTuner(ParameterTuner):
 
         if self._last_parameter_values[current_parameter.index].isnull().values.any():
             self._last_evaluation_failed = True
+            self.cheap_evaluation_only = True
             return False
         self._last_evaluation_failed = False
 
-- 
2.43.0


From 60f30ad67226d47d8e39a6c73fb6267a0de24fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 37/70] fix: do not change the evaluator data of previous rows
 of the history

---
 qtune/history.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 5aedda6..ffea6b8 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -14,6 +14,7 @@
 
 # @email: julian.teske@rwth-aachen.de
 
+import copy
 import os
 import operator
 import re
@@ -608,6 +609,15 @@ def extract_diagonal_from_data_frame(df: pd.DataFrame) -> pd.Series:
     return pd.Series(data=[df[i][i] for i in df.index], index=df.index)
 
 
+def copy_evaluator_data(evaluator: qtune.evaluator.Evaluator) -> dict:
+    """
+    :param evaluator: Evaluator
+    :return: Data of the evaluator, which is not changed by the following evaluations.
+    """
+    experiment = evaluator.experiment
+    return copy.deepcopy(evaluator.to_hdf5(), {id(experiment): experiment})
+
+
 def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, start: int=0, end: Optional[int] = None) \
         -> pd.DataFrame:
     if end is None:
@@ -621,12 +631,12 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
                 relevant_evaluators += par_tuner.expensive_evaluators
             for evaluator in relevant_evaluators:
                 if evaluator.raw_data is not None:
-                    eval_data = evaluator.to_hdf5()
+                    eval_data = copy_evaluator_data(evaluator)
                     evaluator_data[evaluator.name] = [eval_data, ]
         elif is_evaluated(par_tuner):
             for evaluator in par_tuner.evaluators:
                 if evaluator.raw_data is not None:
-                    eval_data = evaluator.to_hdf5()
+                    eval_data = copy_evaluator_data(evaluator)
                     evaluator_data[evaluator.name] = [eval_data, ]
     return evaluator_data
 
-- 
2.43.0


From 0b425fd80d090b9d74553e2e8d42b0fe873e3e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 38/70] fix: use the poly1d of numpy in SensingDot1D

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 9e7c558..4cae0a8 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -645,7 +645,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.polynomial.poly1d(coef[::-1])
+        polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
-- 
2.43.0


From c409e68c64593316c08cc82ab2da2ca0cb1ed483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 39/70] fix: update the row of the history if its voltages are
 evaluated again

---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index ffea6b8..66569d3 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -316,7 +316,8 @@ class History:
         if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):
             # stay in the row
             self._paths_for_reload[-1] = path
-            start = self._data_frame['tuner_index'].iloc[-1]
+            # the index is lower than before if the tuning was started again by a restart or a change of the targets
+            start = max(min(self._data_frame['tuner_index'].iloc[-1], evaluated_tuner_index - 1), 0)
             new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, start=start, end=evaluated_tuner_index)
-- 
2.43.0


From 308bb614e8115f928f040240a660f2a07bcf55da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 40/70] fix: return undefined values if the fit of an evaluator
 fails

Data which are not finite raise a ValueError and the lead time evaluators did not handle any failure.
---
 qtune/evaluator.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 4cae0a8..a7e23f4 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -154,7 +154,12 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         self._raw_y_data = []
         self._raw_x_data = []
         raw_data = self.experiment.measure(self.measurements[0])
-        self._fit_results, residual = self.process_raw_data(raw_data)
+        try:
+            self._fit_results, residual = self.process_raw_data(raw_data)
+        except (RuntimeError, ValueError):
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            self._fit_results = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                              'offset'])
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
@@ -257,7 +262,13 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
 
     def evaluate(self) -> (pd.Series, pd.Series):
         raw_data = self.experiment.measure(self.measurements[0])
-        fitresult, residual = self.process_raw_data(raw_data)
+        try:
+            fitresult, residual = self.process_raw_data(raw_data)
+        except (RuntimeError, ValueError):
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            fitresult = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                      'offset', 'slope', 'offset_linear', 'length_lin_fall', 'slope_1',
+                                                      'offset_linear_1', 'length_lin_rise'])
         self._fit_results = fitresult
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
@@ -389,7 +400,7 @@ class InterDotTCByLineScan(FittingEvaluator):
                                        n_points)
         try:
             fitresult, residual = self.process_raw_data((self._raw_x_data, self._raw_y_data))
-        except RuntimeError:
+        except (RuntimeError, ValueError):
             self.logger.error('The following evaluator could not evaluate its data: ' + str(self))
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
             return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
@@ -469,7 +480,7 @@ class NewLoadTime(FittingEvaluator):
         data = self.experiment.measure(self.measurements[0])
         try:
             fitresult, residual = self.process_raw_data(data)
-        except RuntimeError:
+        except (RuntimeError, ValueError):
             self.logger.error('The following evaluator could not fit its data:' + str(self))
             fitresult = pd.Series(data=np.nan, index=['offset', 'height', 'curvature'])
             residual = np.nan
-- 
2.43.0


From b247ff208938cdcb148662756df88341de4aa45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 41/70] fix: return undefined positions if the scan data are
 not finite

---
 qtune/evaluator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index a7e23f4..d1f19d5 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -579,7 +579,10 @@ class LeadTransition(Evaluator):
                                  num=measurement.options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
-            self.transition_positions["position_" + gate] = x_data[transition_pos]
+            if np.isfinite(data).all():
+                self.transition_positions["position_" + gate] = x_data[transition_pos]
+            else:
+                self.transition_positions["position_" + gate] = np.nan
             error["position_" + gate] = .01e-3**2
         return self.transition_positions, error
 
@@ -665,7 +668,10 @@ class SensingDot1D(Evaluator):
         else:
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
-        self.optimal_position = raw_x_data[steepest_point + cutoff]
+        if np.isfinite(raw_y_data).all():
+            self.optimal_position = raw_x_data[steepest_point + cutoff]
+        else:
+            self.optimal_position = np.nan
         self.current_signal = derivative_approximation[len(derivative_approximation) // 2]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
@@ -772,6 +778,8 @@ class SensingDot2D(Evaluator):
         new_voltages = pd.Series([raw_x_data[0][steepest_point[0]], raw_x_data[1][steepest_point[1] + cutoff]],
                                  ["position_" + self.measurements[0].options["gate1"],
                                   "position_" + self.measurements[0].options["gate2"]])
+        if not np.isfinite(raw_y_data).all():
+            new_voltages[:] = np.nan
         error = pd.Series([.1e-3, .1e-3], ["position_" + self.measurements[0].options["gate1"],
                                            "position_" + self.measurements[0].options["gate2"]])
         return new_voltages, error
-- 
2.43.0


From 1d8638791432799940d1266477d97e2cc8d8bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 42/70] fix: return the tunnel coupling and the load time under
 the declared name

---
 qtune/evaluator.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index d1f19d5..5dc69e9 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -391,8 +391,7 @@ class InterDotTCByLineScan(FittingEvaluator):
         elif len(ydata.shape) > 2:
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
             self.logger.error('The Evaluator' + str(self) + 'received measurement data of an invalid dimension.')
-            return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
-                                                                                 ["parameter_tunnel_coupling"])
+            return pd.Series([np.nan], self.parameters), pd.Series([np.nan], self.parameters)
         else:
             n_points = ydata.size
         self._raw_x_data = np.linspace(self.measurements[0].options['center'] - self.measurements[0].options['range'],
@@ -403,12 +402,10 @@ class InterDotTCByLineScan(FittingEvaluator):
         except (RuntimeError, ValueError):
             self.logger.error('The following evaluator could not evaluate its data: ' + str(self))
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
-            return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
-                                                                                 ["parameter_tunnel_coupling"])
+            return pd.Series([np.nan], self.parameters), pd.Series([np.nan], self.parameters)
         self._fit_results = fitresult
         tc_in_mus = fitresult['width']
-        return pd.Series([tc_in_mus], ["parameter_tunnel_coupling"]), \
-            pd.Series([residual], ["parameter_tunnel_coupling"])
+        return pd.Series([tc_in_mus], self.parameters), pd.Series([residual], self.parameters)
 
     def process_raw_data(self, raw_data):
         x_data = raw_data[0]
@@ -487,8 +484,7 @@ class NewLoadTime(FittingEvaluator):
         self._fit_results = fitresult
         self._raw_y_data = data[0, :]
         self._raw_x_data = data[1, :]
-        return pd.Series([fitresult['curvature']], ['parameter_time_load']),\
-            pd.Series([residual], ["parameter_time_load"])
+        return pd.Series([fitresult['curvature']], self.parameters), pd.Series([residual], self.parameters)
 
     def process_raw_data(self, raw_data):
         x_data = raw_data[1, :]
-- 
2.43.0


From 1ccd752bad3cc30c47624bf4876328a63ff4b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 43/70] fix: keep the buttons consistent if the tuning ends
 while it is started

---
 qtune/gui.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 1c077df..29e80ce 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -14,7 +14,7 @@
 
 # @email: julian.teske@rwth-aachen.de
 
-from threading import Thread
+from threading import Lock, Thread
 import time
 import logging
 import functools
@@ -560,6 +560,7 @@ class GUI(QtWidgets.QMainWindow):
         self._stop_btn = stop_btn
         self._step_btn = step_btn
 
+        self._lock = Lock()  # the worker pauses itself
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -738,10 +739,11 @@ class GUI(QtWidgets.QMainWindow):
         else:
             self.logger.info('Starting worker thread')
 
-        self._continuous = True
-        self._start_btn.setEnabled(False)
-        self._step_btn.setEnabled(False)
-        self._stop_btn.setEnabled(True)
+        with self._lock:
+            self._continuous = True
+            self._start_btn.setEnabled(False)
+            self._step_btn.setEnabled(False)
+            self._stop_btn.setEnabled(True)
 
     def step(self):
         if not self._thread.is_alive():
@@ -759,11 +761,12 @@ class GUI(QtWidgets.QMainWindow):
         elif not self._stepped:
             self.logger.info('Already paused')
 
-        self._continuous = False
-        self._stepped = False
-        self._start_btn.setEnabled(True)
-        self._step_btn.setEnabled(True)
-        self._stop_btn.setEnabled(False)
+        with self._lock:
+            self._continuous = False
+            self._stepped = False
+            self._start_btn.setEnabled(True)
+            self._step_btn.setEnabled(True)
+            self._stop_btn.setEnabled(False)
 
     def close(self):
         self._stop = True
-- 
2.43.0


From e0ca627c54abfab579dc6b390e1d5a51b1122f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 44/70] fix: groups sharing their target with others could not
 be evaluated

---
 qtune/parameter_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index e5c947b..142b56f 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -163,7 +163,8 @@ class ParameterTuner(metaclass=HDF5Serializable):
             parameter, variance = evaluator.evaluate()
             parameters.append(parameter)
             variances.append(variance)
-        return pd.concat(parameters)[self.parameters], pd.concat(variances)[self.parameters]
+        # the target can contain parameters without desired value which are evaluated by another tuner
+        return pd.concat(parameters).reindex(self.parameters), pd.concat(variances).reindex(self.parameters)
 
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
-- 
2.43.0


From 7fadc7ff4cb9db09ef23113ee25e9a7a75f6067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 45/70] fix: groups sharing their target with others could not
 be loaded

---
 qtune/parameter_tuner.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 142b56f..a8d2e67 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -59,9 +59,10 @@ class ParameterTuner(metaclass=HDF5Serializable):
         self._last_evaluation_failed = last_evaluation_failed
         self._evaluatable_voltages = evaluatable_voltages or []
 
+        # parameters without conditions can be evaluated by another tuner
+        not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                        axis='columns').dropna().index
         if last_parameter_values is None:
-            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                            axis='columns').dropna().index
             self._last_parameter_values = pd.Series(index=not_na_index)
         else:
             # commented code was used for a debug attempt of the asynchron reader
@@ -71,18 +72,16 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # storage_path = r'D:\debug_%d.txt' % random.randint(0,10000)
             # with open(storage_path, 'wb') as file:
             #     file.write(data)
-            assert set(self.target.dropna(how='all').index).issubset(set(last_parameter_values.index))
+            assert set(not_na_index).issubset(set(last_parameter_values.index))
             self._last_parameter_values = last_parameter_values
 
             # import os
             # os.remove(storage_path)
 
         if last_parameters_variances is None:
-            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                            axis='columns').dropna().index
             self._last_parameters_variances = pd.Series(index=not_na_index)
         else:
-            assert set(self.target.index).issubset(set(last_parameters_variances.index))
+            assert set(not_na_index).issubset(set(last_parameters_variances.index))
             self._last_parameters_variances = last_parameters_variances
 
         self._evaluators = tuple(evaluators)
-- 
2.43.0


From ccd36617c846779c88acaee42c6b6c533ee4a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 46/70] fix: a parameter given conditions by a change of the
 target was not observed

---
 qtune/parameter_tuner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index a8d2e67..964ce29 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -60,8 +60,7 @@ class ParameterTuner(metaclass=HDF5Serializable):
         self._evaluatable_voltages = evaluatable_voltages or []
 
         # parameters without conditions can be evaluated by another tuner
-        not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
-                                        axis='columns').dropna().index
+        not_na_index = self._parameters_with_conditions
         if last_parameter_values is None:
             self._last_parameter_values = pd.Series(index=not_na_index)
         else:
@@ -126,6 +125,16 @@ class ParameterTuner(metaclass=HDF5Serializable):
     @target.setter
     def target(self, changes):
         self.solver.target = changes
+        # a parameter which had no conditions so far has to be observed from now on
+        index = self._last_parameter_values.index
+        index = index.append(self._parameters_with_conditions.difference(index))
+        self._last_parameter_values = self._last_parameter_values.reindex(index)
+        self._last_parameters_variances = self._last_parameters_variances.reindex(index)
+
+    @property
+    def _parameters_with_conditions(self) -> pd.Index:
+        return self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                axis='columns').dropna().index
 
     @property
     def parameters(self) -> Sequence[str]:
-- 
2.43.0


From 756467eba934070c91120d79c93d66a0258720b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 47/70] fix: uncertain directions beside tuned parameters were
 not measured when the gradients contain small numbers

---
 qtune/gradient.py | 73 +++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 40 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 2ee338e..01e37ca 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -18,7 +18,7 @@ from typing import Optional, Union, Sequence
 
 import numpy as np
 import pandas as pd
-import sympy as sp
+from scipy import linalg
 
 from qtune.kalman_gradient import KalmanGradient
 from qtune.storage import HDF5Serializable
@@ -319,46 +319,39 @@ class KalmanGradientEstimator(GradientEstimator):
             gates = self._current_position.index
 
         if tuned_jacobian is None:
-            # extract relevant entries of the covariance matrix
-            full_cov = pd.DataFrame(data=self._kalman_gradient.cov, index=self._current_position.index,
-                                    columns=self._current_position.index)
-            relevant_cov = full_cov.loc[gates, gates]
-
-            eigenvalues, eigenvectors = np.linalg.eigh(relevant_cov)
-
-            # scale the eigenvectors with their eigenvalues (vector-wise)
-            scaled_eigenvectors = eigenvalues[np.newaxis, :] * eigenvectors
-
-            # divide them by the maximum covariance (dimension-wise)
-            rescaled_eigenvectors = scaled_eigenvectors / self._maximum_covariance[gates].values[:, np.newaxis]
-
-            # check whether the rescaled vectors are longer than one
-            lengths = np.linalg.norm(rescaled_eigenvectors, axis=0)
-            if np.any(lengths > 1):
-                # if so, pick the longest and scale it with epsilon
-                self.logger.info('New measurement required by kalman gradient estimator.')
-                self.logger.debug(self._epsilon[gates] * eigenvectors[:, np.argmax(lengths)])
-                return self._current_position.add(self._epsilon[gates] * eigenvectors[:, np.argmax(lengths)],
-                                                  fill_value=0.)
+            directions = np.eye(len(gates))
         else:
-            tuned_matrix = sp.Matrix(tuned_jacobian)
-            nullvecotors = [vec / vec.norm() for vec in tuned_matrix.nullspace()]
-            filled_nullvectors = []
-            for vec in nullvecotors:
-                full_vector = self.current_position.copy(deep=True)
-                vec_labled = pd.Series(np.squeeze(np.array(vec)), index=tuned_jacobian.columns)
-                full_vector[vec_labled.index] = vec_labled
-                full_vector[full_vector.index.difference(vec_labled.index)] = 0
-                filled_nullvectors.append(sp.Matrix(full_vector))
-            max_covariance = self._maximum_covariance.max()
-            directional_covariances = [v.T * self._kalman_gradient.cov * v for v in filled_nullvectors]
-            if np.any(np.array(directional_covariances) > max_covariance):
-                self.logger.info('New measurement required by kalman gradient estimator.')
-                self.logger.debug(self._epsilon * np.squeeze(
-                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)))
-                return self._current_position.add(
-                    self._epsilon * np.squeeze(
-                        np.array(filled_nullvectors[np.argmax(directional_covariances)]).astype(float)), fill_value=0.)
+            # the columns are an orthonormal basis of the directions which leave the tuned parameters unchanged
+            gates = tuned_jacobian.columns
+            directions = linalg.null_space(tuned_jacobian.values.astype(float))
+            if directions.size == 0:
+                return None
+
+        # extract relevant entries of the covariance matrix
+        full_cov = pd.DataFrame(data=self._kalman_gradient.cov, index=self._current_position.index,
+                                columns=self._current_position.index)
+        relevant_cov = directions.T @ full_cov.loc[gates, gates].values @ directions
+
+        eigenvalues, eigenvectors = np.linalg.eigh(relevant_cov)
+        eigenvectors = directions @ eigenvectors
+
+        # scale the eigenvectors with their eigenvalues (vector-wise)
+        scaled_eigenvectors = eigenvalues[np.newaxis, :] * eigenvectors
+
+        # divide them by the maximum covariance (dimension-wise)
+        rescaled_eigenvectors = scaled_eigenvectors / self._maximum_covariance[gates].values[:, np.newaxis]
+
+        # check whether the rescaled vectors are longer than one
+        lengths = np.linalg.norm(rescaled_eigenvectors, axis=0)
+        if np.any(lengths > 1):
+            # if so, pick the longest and scale it with epsilon
+            direction = eigenvectors[:, np.argmax(lengths)]
+            if tuned_jacobian is not None:
+                # the sign of the basis vectors is arbitrary
+                direction = direction * np.sign(direction[np.abs(direction) > 1e-9][-1])
+            self.logger.info('New measurement required by kalman gradient estimator.')
+            self.logger.debug(self._epsilon[gates] * direction)
+            return self._current_position.add(self._epsilon[gates] * direction, fill_value=0.)
 
     def update(self,
                position: pd.Series,
-- 
2.43.0


From 6247bf04474fde1b4d28e0fe9318fe74ae107be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 48/70] fix: gradient measurements with different step sizes
 detuned the tuned parameters

---
 qtune/gradient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 01e37ca..50da3ce 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -349,6 +349,9 @@ class KalmanGradientEstimator(GradientEstimator):
             if tuned_jacobian is not None:
                 # the sign of the basis vectors is arbitrary
                 direction = direction * np.sign(direction[np.abs(direction) > 1e-9][-1])
+                # in units of the step sizes, otherwise different step sizes turn the direction
+                direction = direction / self._epsilon[gates].values
+                direction = direction / np.linalg.norm(direction)
             self.logger.info('New measurement required by kalman gradient estimator.')
             self.logger.debug(self._epsilon[gates] * direction)
             return self._current_position.add(self._epsilon[gates] * direction, fill_value=0.)
-- 
2.43.0


From 6ae51b6b0d933acc7c5b3fe5a56168acac367576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 49/70] fix: the reload window showed another tune run number
 than it reloaded

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 29e80ce..354dfd8 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -407,7 +407,7 @@ class ReloadWidget(pg.LayoutWidget):
         tune_run_label = QtWidgets.QLabel('Reload tune run number')
         self.addWidget(tune_run_label, 1, 1)
         self.tune_run_line = QtWidgets.QLineEdit()
-        self.tune_run_line.setText('1')
+        self.tune_run_line.setText('0')
         self.tune_run_line.setValidator(QtGui.QIntValidator())
         self.tune_run_line.editingFinished.connect(self.refreh_tune_run_number)
         self.addWidget(self.tune_run_line, 2, 1)
-- 
2.43.0


From 69b0c2cdd8319bc75c7c944264d273b96424f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 50/70] fix: reload windows continued with a tuner replaced
 through another window

---
 qtune/gui.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 354dfd8..9785073 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -575,7 +575,8 @@ class GUI(QtWidgets.QMainWindow):
 
     @log_exceptions('plotting')
     def _close_child(self, window: QtWidgets.QWidget, event: QtGui.QCloseEvent):
-        for child_list in (self._plot_organizer, self._parameter_windows, self._gradient_windows, self._raw_data_windows):
+        for child_list in (self._plot_organizer, self._parameter_windows, self._gradient_windows, self._raw_data_windows,
+                           self._reload_windows):
             try:
                 child_list.remove(window)
                 break
@@ -607,6 +608,9 @@ class GUI(QtWidgets.QMainWindow):
     @log_exceptions('plotting')
     def load_auto_tuner_from_reload_widget(self):
         self._auto_tuner = self.sender().auto_tuner
+        # the other windows must not continue with the replaced tuner
+        for reload_widget in self._reload_windows:
+            reload_widget.auto_tuner = self._auto_tuner
 
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
-- 
2.43.0


From 910767ff114acda3922bcaa000ccd434333d29f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 51/70] fix: plots of parameters without an entry in the table
 of labels failed

---
 qtune/history.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 66569d3..ce1f6fd 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -514,8 +514,9 @@ def plot_parameters(parameter_data_frame: pd.DataFrame,
     parameter_ax = parameter_data_frame.plot(subplots=True, yerr=parameter_std,
                                              ax=parameter_ax, sharex=True, legend=False)
     for ax, par_name in zip(parameter_ax, parameter_data_frame.columns):
-        ax.set_ylabel(parameter_information[par_name]["entity_unit"])
-        ax.set_title(parameter_information[par_name]["name"])
+        information = parameter_information.get(par_name, dict())
+        ax.set_ylabel(information.get("entity_unit", par_name))
+        ax.set_title(information.get("name", par_name))
     parameter_ax[-1].set_xlabel("Measurement Number")
     return parameter_fig, parameter_ax
 
@@ -538,7 +539,8 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         else:
             gradient.plot(ax=ax)
 
-        ax.set_ylabel(parameter_information[parameter_name]["gradient_unit"])
+        information = parameter_information.get(parameter_name, dict())
+        ax.set_ylabel(information.get("gradient_unit", "Gradient " + parameter_name))
     grad_ax[0].set_title("Response Matrix")
     grad_ax[-1].set_xlabel("Measurement Number")
     return grad_fig, grad_ax
-- 
2.43.0


From 746ef6d889e9f54e3360035c06cf698acf92e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:28 +0000
Subject: [PATCH 52/70] fix: plots of a single gradient or of gradients which
 are not yet measured failed

---
 qtune/history.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index ce1f6fd..92c514d 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -528,12 +528,16 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         gradient_std = dict()
 
     if axes is None:
-        grad_fig, grad_ax = plt.subplots(nrows=len(gradients))
+        grad_fig, grad_ax = plt.subplots(nrows=max(len(gradients), 1))
     else:
         grad_fig, grad_ax = None, axes
+    grad_ax = np.atleast_1d(grad_ax)
 
     for ax, (parameter_name, gradient) in zip(grad_ax, gradients.items()):
-        if parameter_name in gradient_std:
+        if gradient.empty:
+            # the gradient has not been measured yet
+            pass
+        elif parameter_name in gradient_std:
             gradient.plot(ax=ax, yerr=gradient_std[parameter_name].applymap(np.sqrt))
 
         else:
-- 
2.43.0


From c8dfb673d0108ba37989fe5b5d923046b8588cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 53/70] fix: gradient and raw data windows with a single row of
 axes failed

---
 qtune/gui.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 9785073..32cdce0 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -309,7 +309,7 @@ class QTuneMatplotWidget(MatplotlibWidget):
             return self.getFigure().axes
         else:
             self.getFigure().clear()
-            return self.getFigure().subplots(nrows=number_rows)
+            return self.getFigure().subplots(nrows=number_rows, squeeze=False)[:, 0]
 
     @property
     def parameter_names(self):
@@ -341,6 +341,12 @@ class GradientWidget(QTuneMatplotWidget):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
+    @property
+    def parameter_names(self):
+        if self._parameter_names is None:
+            return sorted(self.history.gradient_controlled_parameter_names)
+        return self._parameter_names
+
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
@@ -350,7 +356,7 @@ class GradientWidget(QTuneMatplotWidget):
         gradient_variances = {par_name: self.history.get_gradient_variances(parameter_name=par_name)
                               for par_name in self.parameter_names}
 
-        axes = self.get_clear_axes()
+        axes = self.get_clear_axes(number_rows=max(len(gradients), 1))
 
         plot_gradients(gradients, gradient_variances, axes=axes)
         self.draw()
-- 
2.43.0


From 50458ff90054c571692e0c4102cd141c47b7f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:34 +0000
Subject: [PATCH 54/70] fix: real time plot failed with current pyqtgraph,
 which takes the options of lists as limits

---
 qtune/gui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 32cdce0..20998d8 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -241,14 +241,14 @@ class PlotOrganizer(pg.LayoutWidget):
         ]}
 
         params = {'name': 'Parameters', 'type': 'group', 'children': [
-            {'name': name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': ''}
+            {'name': name, 'type': 'list', 'limits': ['', 'plot', 'plot + error'], 'value': ''}
             for name in history.parameter_names
         ]}
 
         grads = {'name': 'Gradients', 'type': 'group', 'children': [
-            {'name': parameter_name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': '',
+            {'name': parameter_name, 'type': 'list', 'limits': ['', 'plot', 'plot + error'], 'value': '',
              'expanded': False, 'children': [
-                {'name': gate_name, 'type': 'list', 'values': ['', 'plot', 'plot + error'], 'value': ''}
+                {'name': gate_name, 'type': 'list', 'limits': ['', 'plot', 'plot + error'], 'value': ''}
                 for gate_name in gates
             ]} for parameter_name, gates in history.gradient_controlled_parameter_names.items()
         ]}
-- 
2.43.0


From 65af9f7fc1938a65d6444a2652f65199444cc5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 55/70] fix: real time plot failed with current pyqtgraph, in
 which groups have no value

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 20998d8..792d7b3 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -142,7 +142,7 @@ class PlotOrganizer(pg.LayoutWidget):
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
-        (_, gates), (_, params), (_, grads) = self.parameter.getValues().values()
+        gates, params, grads = (group.getValues() for group in self.parameter.children())
         pens = (pg.intColor(idx, max(1, len(gates) + len(params))) for idx in itertools.count(0))
         plot_item = self.plot.getPlotItem()
 
-- 
2.43.0


From 46ac00ce5b3874a296e0923cb83438a7517a1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 56/70] fix: raw data of the one dimensional sensing dot scan
 could not be plotted on an array of axes

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 92c514d..9630005 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -694,7 +694,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-    if isinstance(ax, Tuple) or isinstance(ax, List):
+    if isinstance(ax, Tuple) or isinstance(ax, List) or isinstance(ax, np.ndarray):
         ax = ax[0]
     qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'],
                                             x_data=evaluator_hdf5['raw_x_data'],
-- 
2.43.0


From eaaf643f7668e55548e5b09da74abfe5e773981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 57/70] fix: raw data window showed another tune run than the
 selected one

---
 qtune/gui.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 792d7b3..47bc95c 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -373,20 +373,20 @@ class MeasurementDataWidget(QTuneMatplotWidget):
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
     def refresh(self):
-        if self.history.evaluator_data.iloc[self.tune_run_number - 1][self.evaluator_name] != \
-                self.history.evaluator_data.iloc[self.tune_run_number - 1][self.evaluator_name]:
+        if self.history.evaluator_data.iloc[self.tune_run_number][self.evaluator_name] != \
+                self.history.evaluator_data.iloc[self.tune_run_number][self.evaluator_name]:
             return
         if self.evaluator_name.startswith('Averaging'):
             num_measurements = len(
-                self.history.evaluator_data.iloc[self.tune_run_number - 1][self.evaluator_name][
+                self.history.evaluator_data.iloc[self.tune_run_number][self.evaluator_name][
                     'evaluator'].measurements)
         else:
             num_measurements = len(
-                self.history.evaluator_data.iloc[self.tune_run_number - 1][self.evaluator_name]['measurements'])
+                self.history.evaluator_data.iloc[self.tune_run_number][self.evaluator_name]['measurements'])
 
         axes = self.get_clear_axes(number_rows=num_measurements)
         self.history.plot_single_evaluator_data(ax=axes, evaluator_name=self.evaluator_name,
-                                                tune_run_number=self.tune_run_number - 1)
+                                                tune_run_number=self.tune_run_number)
         self.getFigure().tight_layout()
         self.draw()
 
-- 
2.43.0


From 5ad5a3857c4b355bd16e9eafce6d10a3c93c316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 58/70] fix: gradients measured after the first record could
 not be selected in the real time plot

---
 qtune/history.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/history.py b/qtune/history.py
index 9630005..bb58c46 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -273,6 +273,9 @@ class History:
             # voltages are extracted from the first and therefore most updated partuner
             parameters, variances = extract_parameters_from_hierarchy(relevant_hierarchy)
             gradients, grad_covariances = extract_gradients_from_hierarchy(relevant_hierarchy)
+            # the gates are unknown as long as the gradient is not yet measured
+            for parameter_name, gradient in gradients.items():
+                self._gradient_controlled_parameters.setdefault(parameter_name, set()).update(gradient.index)
 
         voltages = dict(voltages)
         parameters = dict(parameters)
-- 
2.43.0


From 670738d9a36ed0a7d0e65c4efff208e1d43484a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 59/70] fix: read_files returned nothing

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index bb58c46..4a0b8ae 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -117,7 +117,7 @@ def read_files(file_or_files, reserved=None):
 
                 data.append((entry, entry_data))
 
-    return data.sort(key=operator.itemgetter(0))
+    return sorted(data, key=operator.itemgetter(0))
 
 
 class History:
-- 
2.43.0


From 8b9122df498708b5a1b78fb12278bcaa9b7ffcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 60/70] fix: raw data of averaging evaluators, of all
 evaluators or of runs without data could not be plotted

---
 qtune/history.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 4a0b8ae..6a69ede 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -431,10 +431,12 @@ class History:
         :param evaluator_names: Names of the evaluator to be plotted.
         :return: Figure, Axes
         """
+        if evaluator_names is None:
+            evaluator_names = self.evaluator_names
         for name in evaluator_names:
             if name not in self._evaluator_data.columns:
                 self.logger.warning(name + ' is not in the evaluation data.')
-                evaluator_names.remove(name)
+        evaluator_names = [name for name in evaluator_names if name in self._evaluator_data.columns]
 
         if end is None:
             end = start + 1
@@ -444,7 +446,7 @@ class History:
             if i not in self._evaluator_data.index:
                 raise RuntimeError('These indices are not in the aquired data!')
             number_measurements = [
-                len(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator]['measurements'])
+                count_measurements(self._evaluator_data.loc[self._evaluator_data.index[i], evaluator])
                 for evaluator in evaluator_names
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
@@ -454,8 +456,8 @@ class History:
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
             eval_data_fig, eval_data_ax = plt.subplots(nrows=2,
-                                                       ncols=sum(number_measurements) // 2 + sum(
-                                                           number_measurements) % 2)
+                                                       ncols=max(1, sum(number_measurements) // 2 + sum(
+                                                           number_measurements) % 2))
             eval_data_figs.append(eval_data_fig)
             eval_data_axs.append(eval_data_ax)
             ax_list = [eval_data_ax.ravel()[sum(number_measurements[0:j]):sum(number_measurements[0:j + 1])] for j in
@@ -651,6 +653,16 @@ def read_evaluator_data_from_autotuner(autotuner: qtune.autotuner.Autotuner, sta
     return evaluator_data
 
 
+def count_measurements(evaluator_hdf5: dict) -> int:
+    """
+    :param evaluator_hdf5: Data of an Evaluator in the History.
+    :return: Number of measurements of the Evaluator, or of the averaged Evaluator.
+    """
+    if 'measurements' in evaluator_hdf5:
+        return len(evaluator_hdf5['measurements'])
+    return len(evaluator_hdf5['evaluator'].measurements)
+
+
 def plot_load_time(ax, evaluator_hdf5, **_):
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
                                  fit_function=qtune.evaluator.func_load_time,
-- 
2.43.0


From c11642ec1e51fa831e7ec7d4e1009a15fab43e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 61/70] fix: a history started before the first iteration
 failed at the first step

---
 qtune/history.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/history.py b/qtune/history.py
index 6a69ede..9f13e8b 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -315,6 +315,9 @@ class History:
             for evaluator_name in new_evaluator_data.columns:
                 if new_evaluator_data.loc[new_evaluator_data.index[0], evaluator_name]['raw_y_data'] is None:
                     new_evaluator_data.loc[new_evaluator_data.index[0], evaluator_name] = np.nan
+            if new_evaluator_data.empty:
+                # nothing is evaluated before the first iteration, but keep one row for each row of the parameters
+                new_evaluator_data = pd.DataFrame(index=[0, ])
             self._evaluator_data = self._evaluator_data.append(new_evaluator_data, ignore_index=True, sort=True)
         if voltages.equals(self._data_frame[sorted(self.gate_names)].iloc[-1]):
             # stay in the row
-- 
2.43.0


From f01628a62f2d3ba414b8661d43ba99b27fcf5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:53 +0000
Subject: [PATCH 62/70] fix: raw data of LeadTunnelTimeByLeadScan could not be
 plotted

---
 qtune/history.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 9f13e8b..096dbdc 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -695,8 +695,13 @@ def plot_lead_time(ax, evaluator_hdf5: dict, **_):
         axi = ax
     if isinstance(axi, List) or isinstance(axi, Tuple) or isinstance(axi, np.ndarray):
         axi = axi[0]
+    fit_arguments = evaluator_hdf5['fit_results'] if evaluator_hdf5['fit_results'] is not None else dict()
+    if 'slope' in fit_arguments:
+        fit_function = qtune.evaluator.func_lead_times_v2
+    else:
+        fit_function = qtune.evaluator.func_lead_times_v1
     qtune.util.plot_raw_data_fit(y_data=evaluator_hdf5['raw_y_data'], x_data=evaluator_hdf5['raw_x_data'],
-                                 fit_function=qtune.evaluator.func_lead_times_v1,
+                                 fit_function=fit_function,
                                  function_args=evaluator_hdf5['fit_results'],
                                  initial_arguments=evaluator_hdf5['initial_fit_arguments'], ax=axi)
     axi.legend(['Data', 'Fit', 'Initial_parameters'])
-- 
2.43.0


From 8ce75fec30e92cf29247323db8176256dbb9b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 63/70] fix: titles of the plotted lead transitions were
 interchanged

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 096dbdc..7b1d777 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -713,7 +713,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
                                                 x_data=evaluator_hdf5['raw_x_data'][i],
                                                 marking_position=evaluator_hdf5['transition_positions'][i],
                                                 ax=axi)
-        axi.set_title(evaluator_hdf5['parameters'][i])
+        axi.set_title(evaluator_hdf5['transition_positions'].index[i])
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-- 
2.43.0


From 36d96d08f6d16a0c61b6dc5aea2f284a23ea1979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 64/70] fix: read_files could not read files with reserved
 elements

---
 qtune/history.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 7b1d777..59448b0 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -110,12 +110,12 @@ def read_files(file_or_files, reserved=None):
 
     for file_name in files:
         with h5py.File(file_name, 'r') as root:
-            entries = [key for key in root.keys() if not key.startswith('#')]
+            # the entries can refer to the reserved elements in the root
+            loaded = qtune.storage.from_hdf5(root, reserved)
 
-            for entry in entries:
-                entry_data = qtune.storage.from_hdf5(root[entry], reserved)
-
-                data.append((entry, entry_data))
+            for entry, entry_data in loaded.items():
+                if not entry.startswith('#') and entry not in (reserved or ()):
+                    data.append((entry, entry_data))
 
     return sorted(data, key=operator.itemgetter(0))
 
-- 
2.43.0


From 38b690032a5de1422ba9c420b148e1e1bd749ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 65/70] fix: qtune.sm could not be imported

An annotation refers to the module which is being imported.
---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index c7cfa07..dc53340 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -225,7 +225,7 @@ class LegacyDQDRefactored(BasicDQD):
 
 
 class MatlabEvaluator(Evaluator):
-    def __init__(self, experiment: qtune.sm.LegacyDQDRefactored, **kwargs):
+    def __init__(self, experiment: LegacyDQDRefactored, **kwargs):
         super().__init__(experiment, **kwargs)
 
     def evaluate(self):
-- 
2.43.0


From 34dc9fbcf5d90812b32c165268b2b1c0cfef185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 66/70] fix: numbers of numpy could not be handed to MATLAB

np.asscalar was removed in numpy 1.23, so that every voltage to be set raised an
AttributeError.
---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index dc53340..b4cdf90 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -148,7 +148,7 @@ class SpecialMeasureMatlab:
 
             return self.engine.transpose(casted)
         elif isinstance(obj, np.generic):
-            return float(np.asscalar(obj))
+            return float(obj.item())
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-- 
2.43.0


From 3f0a77683b0df821832b118e5b63d5c8b3c864b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 67/70] fix: to_matlab converted tuples to generators

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index b4cdf90..39b50d9 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -152,7 +152,7 @@ class SpecialMeasureMatlab:
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-            return (self.to_matlab(x) for x in obj)
+            return tuple(self.to_matlab(x) for x in obj)
         elif isinstance(obj, Dict):
             return {x: self.to_matlab(obj[x]) for x in obj}
         elif isinstance(obj, Set):
-- 
2.43.0


From e811324f3d32f2618e6e843d95720af63c72ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 68/70] fix: sm_tune_qqd could not be imported

np.int and np.float were removed in numpy 1.24.
---
 qtune/sm_tune_qqd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 5f5329f..55c31b8 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -98,7 +98,7 @@ class SMTuneQQD(Experiment):
 
         return self.read_gate_voltages()  # set_qqd_gate_voltages
 
-    def tune(self, measurement_name, index: np.int, **kwargs) -> pd.Series:
+    def tune(self, measurement_name, index: int, **kwargs) -> pd.Series:
         # Tune wrapper using the MATLAB syntax
 
         # data ---  args        <<<< contains struct arrays!
@@ -120,9 +120,9 @@ class SMTuneQQD(Experiment):
             vals = list(options.values())
             name_value_pairs = [x for t in zip(keys, vals) for x in t]
 
-            data_view = tune_view(measurement_name, *([np.float(index)] + name_value_pairs))
+            data_view = tune_view(measurement_name, *([float(index)] + name_value_pairs))
         else:
-            data_view = tune_view(measurement_name, np.float(index))
+            data_view = tune_view(measurement_name, float(index))
 
         return pd.Series({'data': data_view})
 
-- 
2.43.0


From 1f5d9097a33c933873a077bc5dd5b8cde68f9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 69/70] fix: QQDResp without limits discarded every position

The default of the upper limit was minus infinity.
---
 qtune/sm_tune_qqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 55c31b8..f7673a6 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -466,7 +466,7 @@ class QQDResp(Evaluator):
         else:
             self._min_position = pd.Series(index=self.parameters, data=min_position)
         if max_position is None:
-            self._max_position = pd.Series(index=self.parameters, data=-np.inf)
+            self._max_position = pd.Series(index=self.parameters, data=np.inf)
         elif isinstance(max_position, pd.Series):
             self._max_position = max_position
         else:
-- 
2.43.0


From 56b034a3f90ed2896dbd93e13d2874f60f2cae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 70/70] fix: indices were translated wrongly to MATLAB

Negative integers were off by one, slices with a start raised a NameError and those
with a negative step were off by one.
---
 qtune/mat2py.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index 9124f58..3f498e0 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -73,7 +73,7 @@ def _set_field(eval_str, field, val_str):
 
 def _transform_int(py_idx):
     if py_idx < 0:
-        return 'end - %d' % abs(py_idx)
+        return 'end - %d' % (abs(py_idx) - 1)
     else:
         return str(py_idx + 1)
 
@@ -94,17 +94,14 @@ def _transform_slice(python_slice):
     
     if python_slice.start is None:
         start = '1' if step > 0 else 'end'
-    elif idx.start < 0:
-        start = '(end - %d)' % abs(python_slice.start)
     else:
-        start = str(python_slice.start + 1 if step > 0 else python_slice.start)
+        start = '(%s)' % _transform_int(python_slice.start)
     
     if python_slice.stop is None:
         stop = 'end' if step > 0 else '1'
-    elif python_slice.stop < 0:
-        stop = '(end - %d)' % abs(python_slice.stop)
     else:
-        stop = str(python_slice.stop if step > 0 else python_slice.stop + 1)
+        # the last element, which is the one before or after the excluded one
+        stop = '(%s %+d)' % (_transform_int(python_slice.stop), -1 if step > 0 else 1)
     
     return '%s:%d:%s' % (start, step, stop)
 
-- 
2.43.0

