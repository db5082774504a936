From 66cc09945b70dd1a20a3b51f47d539405312c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 01/24] fix: reset per-thread gradient buffers before each
 backward chunk

With a backward_callback the backward pass runs in chunks, and every chunk
added the (never cleared) per-thread buffers to the model gradient, so with
more than one thread the contribution of early chunks was counted repeatedly.
---
 src/deepwave/acoustic.py    | 4 ++++
 src/deepwave/elastic.py     | 4 ++++
 src/deepwave/scalar.py      | 3 +++
 src/deepwave/scalar_born.py | 8 ++++++++
 4 files changed, 19 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index dbb1540..f5606fc 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1181,6 +1181,10 @@ class AcousticForwardFunc(torch.autograd.Function):
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The per-thread (or per-shot) gradient buffers are added to the
+                # gradient at the end of every chunk, so start each one from zero.
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 if (
                     backward(
                         *[m.data_ptr() for m in models],
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3de44c5..43c5ee8 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1830,6 +1830,10 @@ class ElasticForwardFunc(torch.autograd.Function):
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The per-thread (or per-shot) gradient buffers are added to the
+                # gradient at the end of every chunk, so start each one from zero.
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 if (
                     backward(
                         *[model.data_ptr() for model in models],
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index b74ac33..44ecb28 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1249,6 +1249,9 @@ class ScalarBackwardFunc(torch.autograd.Function):
         if grad_wfc.numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The per-thread (or per-shot) gradient buffers are added to the
+                # gradient at the end of every chunk, so start each one from zero.
+                grad_v_tmp.zero_()
                 if (
                     backward(
                         v2dt2.data_ptr(),
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 7b06e44..93662ac 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -1169,6 +1169,10 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             if non_sc:
                 for step in range(nt // step_ratio, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    # The per-thread (or per-shot) gradient buffers are added to the
+                    # gradient at the end of every chunk, so start each one from zero.
+                    grad_v_tmp.zero_()
+                    grad_scatter_tmp.zero_()
                     if (
                         backward(
                             v.data_ptr(),
@@ -1295,6 +1299,10 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             else:
                 for step in range(nt // step_ratio, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    # The per-thread (or per-shot) gradient buffers are added to the
+                    # gradient at the end of every chunk, so start each one from zero.
+                    grad_v_tmp.zero_()
+                    grad_scatter_tmp.zero_()
                     if (
                         backward_sc(
                             v.data_ptr(),
-- 
2.43.0


From 5661b4d92e6650dbae734b01f8b32cc2f8c04cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 02/24] fix: propagate all time steps when the gradient
 sampling interval does not divide them

The time loop ran only nt // step_ratio whole sampling intervals, so with
model_gradient_sampling_interval > 1 the trailing time steps were silently
skipped (zero receiver samples, stale wavefields), an interval longer than the
simulation raised an error, and the double backward pass wrote its snapshots
past the end of the allocated storage.
---
 src/deepwave/acoustic.py    | 27 +++++++++++++++----------
 src/deepwave/common.py      | 16 ++++++++++++++-
 src/deepwave/elastic.py     | 27 +++++++++++++++----------
 src/deepwave/scalar.py      | 29 ++++++++++++++++-----------
 src/deepwave/scalar_born.py | 40 ++++++++++++++++++++++---------------
 5 files changed, 88 insertions(+), 51 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index f5606fc..02457f0 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -907,7 +907,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
 
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = deepwave.common.n_sampling_steps(nt, step_ratio)
 
         # Wavefield names for callback
         # Same order as wavefields list
@@ -946,7 +946,8 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         # Main Loop
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wf_names, wavefields))
                     forward_callback(
@@ -960,7 +961,8 @@ class AcousticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                inner_nt = min(step_nt * step_ratio, nt - step * step_ratio)
 
                 if (
                     forward(
@@ -974,7 +976,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list,
@@ -1142,7 +1144,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
 
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = deepwave.common.n_sampling_steps(nt, step_ratio)
 
         wf_names = ["pressure_0"]
         if ndim == 3:
@@ -1179,8 +1181,11 @@ class AcousticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                inner_nt = end_t - (step - step_nt) * step_ratio
                 # The per-thread (or per-shot) gradient buffers are added to the
                 # gradient at the end of every chunk, so start each one from zero.
                 for grad_model_tmp in grad_models_tmp:
@@ -1200,7 +1205,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list_for_grad,
@@ -1217,7 +1222,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         ],
                         *model_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1226,7 +1231,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     (
                         grad_wavefields[-ndim:],
                         aux_wavefields[:],
@@ -1480,7 +1485,7 @@ def acoustic_python(
 
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(deepwave.common.n_sampling_steps(nt, step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             current_wavefields = [p, *velocities, *phi, *psi]
             callback_wavefields = dict(zip(wf_names, current_wavefields))
@@ -1496,7 +1501,7 @@ def acoustic_python(
                 )
             )
 
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             # Record receivers
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f8e302..ecf99a6 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -184,7 +184,7 @@ class StorageManager:
         temporary_storage: Optional[TemporaryStorage] = None
 
         if requires_grad and self.storage_mode != StorageMode.NONE:
-            num_steps_stored = self.nt // self.step_ratio
+            num_steps_stored = n_sampling_steps(self.nt, self.step_ratio)
 
             if self.storage_mode == StorageMode.DEVICE:  # Device
                 if self.storage_compression:
@@ -409,6 +409,20 @@ Callback = Callable[[CallbackState], None]
 IGNORE_LOCATION = -1 << 31
 
 
+def n_sampling_steps(nt: int, step_ratio: int) -> int:
+    """Number of model gradient sampling intervals covering all time steps.
+
+    Args:
+        nt: The number of (internal) time steps.
+        step_ratio: The number of (internal) time steps in each interval. If it
+            does not divide `nt` then the final interval is shorter.
+
+    Returns:
+        The number of intervals.
+    """
+    return -(-nt // step_ratio)
+
+
 def setup_propagator(
     models: abc.Sequence[torch.Tensor],
     model_pad_modes: abc.Sequence[str],
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 43c5ee8..90b3ad5 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1435,7 +1435,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
 
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = deepwave.common.n_sampling_steps(nt, step_ratio)
 
         wavefield_names = []
         model_names = []
@@ -1497,7 +1497,8 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_wavefields = {}
 
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wavefield_names, wavefields))
                     forward_callback(
@@ -1511,7 +1512,8 @@ class ElasticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                inner_nt = min(step_nt * step_ratio, nt - step * step_ratio)
 
                 if (
                     forward(
@@ -1525,7 +1527,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot,
@@ -1766,7 +1768,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
 
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = deepwave.common.n_sampling_steps(nt, step_ratio)
 
         wavefield_names = []
         model_names = []
@@ -1828,8 +1830,11 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                inner_nt = end_t - (step - step_nt) * step_ratio
                 # The per-thread (or per-shot) gradient buffers are added to the
                 # gradient at the end of every chunk, so start each one from zero.
                 for grad_model_tmp in grad_models_tmp:
@@ -1849,7 +1854,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         *[
@@ -1874,7 +1879,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         mu_batched,
                         buoyancy_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1883,7 +1888,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     if ndim == 3:
                         (
                             grad_wavefields[9:14],
@@ -2504,7 +2509,7 @@ def elastic_python(
         model_names.extend(["lamb", "mu", "buoyancy_x"])
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(deepwave.common.n_sampling_steps(nt, step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = dict(zip(v_names, velocities))
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
@@ -2533,7 +2538,7 @@ def elastic_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             for ridx in range(ndim):
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index 44ecb28..1a48cc1 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -841,14 +841,15 @@ class ScalarForwardFunc(torch.autograd.Function):
         # single call to the backend function. We achieve this by setting the
         # callback frequency to be the total number of steps.
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = deepwave.common.n_sampling_steps(nt, step_ratio)
 
         dim_names = ["z", "y", "x"]
 
         # The main time-stepping loop. The propagation is chunked into segments
         # of `callback_frequency` steps to allow for callbacks.
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+            for step in range(0, n_steps, callback_frequency):
                 # If a `forward_callback` is provided, call it with the current
                 # state.
                 if forward_callback is not None:
@@ -871,7 +872,8 @@ class ScalarForwardFunc(torch.autograd.Function):
                         )
                     )
                 # `step_nt` is the number of steps to propagate in this chunk.
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                inner_nt = min(step_nt * step_ratio, nt - step * step_ratio)
                 # Call the C/CUDA backend function to perform the wave
                 # propagation.
                 if (
@@ -891,7 +893,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -916,7 +918,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                 # PML variables. If an odd number of time steps were performed
                 # in the chunk, the pointers to the current and previous time
                 # step buffers need to be swapped for the next iteration.
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     wfc, wfp = wfp, wfc
                     psi, psin = psin, psi
 
@@ -1242,13 +1244,16 @@ class ScalarBackwardFunc(torch.autograd.Function):
         grad_wfp = -grad_wfp
 
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = deepwave.common.n_sampling_steps(nt, step_ratio)
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfc.numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                inner_nt = end_t - (step - step_nt) * step_ratio
                 # The per-thread (or per-shot) gradient buffers are added to the
                 # gradient at the end of every chunk, so start each one from zero.
                 grad_v_tmp.zero_()
@@ -1271,7 +1276,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         receivers_i.data_ptr(),
                         *rdx,
                         *rdx2,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1285,7 +1290,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         != deepwave.common.StorageMode.NONE,
                         v_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1294,7 +1299,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     grad_wfc, grad_wfp = grad_wfp, grad_wfc
                     grad_psi, grad_psin = grad_psin, grad_psi
                     grad_zeta, grad_zetan = grad_zetan, grad_zeta
@@ -2045,7 +2050,7 @@ def scalar_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(deepwave.common.n_sampling_steps(nt, step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             wavefield_dict = {
                 "wavefield_0": wavefields[0],
@@ -2067,7 +2072,7 @@ def scalar_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 93662ac..9160e5f 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -821,13 +821,14 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = deepwave.common.n_sampling_steps(nt, step_ratio)
 
         dim_names = ["z", "y", "x"]
         callback_wavefields = {}
 
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = {
                         "wavefield_0": wfc,
@@ -855,7 +856,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                inner_nt = min(step_nt * step_ratio, nt - step * step_ratio)
                 if (
                     forward(
                         v.data_ptr(),
@@ -882,7 +884,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        inner_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -908,7 +910,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if inner_nt % 2 != 0:
                     wfc, wfp, psi, psin = (
                         wfp,
                         wfc,
@@ -1161,14 +1163,17 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         grad_wfpsc = -grad_wfpsc
 
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = deepwave.common.n_sampling_steps(nt, step_ratio)
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    end_t = min(step * step_ratio, nt)
+                    inner_nt = end_t - (step - step_nt) * step_ratio
                     # The per-thread (or per-shot) gradient buffers are added to the
                     # gradient at the end of every chunk, so start each one from zero.
                     grad_v_tmp.zero_()
@@ -1205,7 +1210,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            inner_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1225,7 +1230,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            end_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1234,7 +1239,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if inner_nt % 2 != 0:
                         (
                             grad_wfc,
                             grad_wfp,
@@ -1297,8 +1302,11 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             )
                         )
             else:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                n_steps = deepwave.common.n_sampling_steps(nt, step_ratio)
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    end_t = min(step * step_ratio, nt)
+                    inner_nt = end_t - (step - step_nt) * step_ratio
                     # The per-thread (or per-shot) gradient buffers are added to the
                     # gradient at the end of every chunk, so start each one from zero.
                     grad_v_tmp.zero_()
@@ -1323,7 +1331,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            inner_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudessc_requires_grad,
@@ -1338,7 +1346,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            end_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1347,7 +1355,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if inner_nt % 2 != 0:
                         (
                             grad_wfcsc,
                             grad_wfpsc,
@@ -1654,7 +1662,7 @@ def scalar_born_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(deepwave.common.n_sampling_steps(nt, step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = {
                 "wavefield_0": wavefields[0],
@@ -1685,7 +1693,7 @@ def scalar_born_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
-- 
2.43.0


From 8ebc6f76372f5d70c102930a7a4ee6441d9fbecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:31 +0000
Subject: [PATCH 03/24] fix: do not let the free surface modify cached Hicks
 weights

The first location with a given fractional part stored the weight tensor in
the cache and then modified it in place when it was near a free surface, so
later locations with the same fractional part got the wrong weights.
---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index dc30377..a3af070 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -87,7 +87,7 @@ def _get_hicks_for_one_location_dim(
                     * torch.i0(beta * (1 - (x / halfwidth) ** 2).sqrt())
                     / torch.i0(beta)
                 )
-            hicks_weight_cache[key] = weights
+            hicks_weight_cache[key] = weights.clone()
         if free_surface[0] and locations[0].item() < free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
-- 
2.43.0


From 573c0838fe9ee3fb2b63beb57db7247425775ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 04/24] fix: round Hicks grid point indices instead of
 truncating them

location + x is mathematically an integer, but rounding error can leave it
just below, in which case truncation selected the wrong grid point.
---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index a3af070..4217ffa 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -68,7 +68,7 @@ def _get_hicks_for_one_location_dim(
             - location
             + int(location)
         )
-        locations = (location + x).long()
+        locations = (location + x).round().long()
 
         if key in hicks_weight_cache:
             weights = hicks_weight_cache[key].clone()
-- 
2.43.0


From 9f1fdbed46f0e606e71c81e90392e99b6d659357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 05/24] fix: label the 3D elastic callback models and gradients
 correctly

The 3D model names were overwritten by the 2D ones, so callbacks received
mu_zy as mu_yx, mu_zx as buoyancy_y and mu_yx as buoyancy_x.
---
 src/deepwave/elastic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 90b3ad5..6917d7d 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1482,6 +1482,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
@@ -1815,6 +1816,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
-- 
2.43.0


From 1d6b402c4d56181211ec737df74e4ab43faf83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 06/24] fix: include m_sigmaxxx_0 in the elastic backward
 callback wavefields

---
 src/deepwave/elastic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 6917d7d..7e7081b 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1929,9 +1929,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         )
 
                 if backward_callback is not None:
-                    callback_wavefields = dict(
-                        zip(wavefield_names, grad_wavefields[:-1])
-                    )
+                    callback_wavefields = dict(zip(wavefield_names, grad_wavefields))
                     backward_callback(
                         deepwave.common.CallbackState(
                             dt,
-- 
2.43.0


From d6b761b6e5aa74c118d46ae73c98a840b7121246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 07/24] fix: accept location tensors in which every entry is
 IGNORE_LOCATION

Such a tensor contains no locations to check, but with initial wavefields it
raised an error (min of an empty tensor), and with survey_pad it produced an
empty survey extent.
---
 src/deepwave/common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index ecf99a6..ccd273f 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1779,12 +1779,16 @@ def get_survey_extents_one_side(
     # the model shape if right). Otherwise, initialise extreme_location to
     # the other side of the model so that we can find the min (left) or
     # max (right) location below.
+    any_locations = any(
+        location is not None and bool((location[..., dim] != IGNORE_LOCATION).any())
+        for location in locations
+    )
     if side == "left":
-        if pad < 0 or not any(location is not None for location in locations):
+        if pad < 0 or not any_locations:
             return 0
         extreme_location = shape
     else:
-        if pad < 0 or not any(location is not None for location in locations):
+        if pad < 0 or not any_locations:
             return shape
         extreme_location = 0
 
@@ -1942,6 +1946,8 @@ def check_locations_within_extents(
             for dim in range(location.shape[-1]):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
+                if dim_location.numel() == 0:
+                    continue
                 if (
                     dim_location.min() < extents[dim][0]
                     or extents[dim][1] <= dim_location.max()
-- 
2.43.0


From 1961992530e57466b58a4b3c4d9681e4266f587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 08/24] fix: label the elastic Python backend callback
 wavefields correctly

---
 src/deepwave/elastic.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 7e7081b..779b89d 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -2366,11 +2366,13 @@ def elastic_python(
         ]
         v_mem_normal_names = ["m_vyy_0", "m_vxx_0"]
         v_mem_shear_names = [
-            ["m_vyx_0", "m_vxy_0"],
+            ["m_vyx_0"],
+            ["m_vxy_0"],
         ]
         s_mem_normal_names = ["m_sigmayyy_0", "m_sigmaxxx_0"]
         s_mem_shear_names = [
-            ["m_sigmaxyx_0", "m_sigmaxyy_0"],
+            ["m_sigmaxyx_0"],
+            ["m_sigmaxyy_0"],
         ]
 
     else:
@@ -2515,17 +2517,27 @@ def elastic_python(
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
             for i in range(len(shear_s_names)):
                 callback_wavefields.update(
-                    dict(zip(shear_s_names[i], shear_stresses[i]))
+                    dict(zip(shear_s_names[i], shear_stresses[i][i + 1 :]))
                 )
             callback_wavefields.update(dict(zip(v_mem_normal_names, v_mem_vars_normal)))
             for i in range(len(v_mem_shear_names)):
                 callback_wavefields.update(
-                    dict(zip(v_mem_shear_names[i], v_mem_vars_shear[i]))
+                    dict(
+                        zip(
+                            v_mem_shear_names[i],
+                            v_mem_vars_shear[i][:i] + v_mem_vars_shear[i][i + 1 :],
+                        )
+                    )
                 )
             callback_wavefields.update(dict(zip(s_mem_normal_names, s_mem_vars_normal)))
             for i in range(len(s_mem_shear_names)):
                 callback_wavefields.update(
-                    dict(zip(s_mem_shear_names[i], s_mem_vars_shear[i]))
+                    dict(
+                        zip(
+                            s_mem_shear_names[i],
+                            s_mem_vars_shear[i][:i] + s_mem_vars_shear[i][i + 1 :],
+                        )
+                    )
                 )
             forward_callback(
                 deepwave.common.CallbackState(
-- 
2.43.0


From 1ece3beef71433aa860a0556fddc0ebd4436e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 09/24] fix: keep adjoint staggered-grid loops inside the
 domain in dimensions narrower than the stencil

---
 src/deepwave/acoustic.py | 2 +-
 src/deepwave/elastic.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 02457f0..3ddcc68 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1097,7 +1097,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 779b89d..6b30649 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1712,7 +1712,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
-- 
2.43.0


From 4f12b24f8036878554b2f3da56ca5249e97a4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 10/24] fix: zero the Nyquist frequency when the requested
 frequency taper is shorter than one bin

---
 src/deepwave/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index ccd273f..59b785f 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1357,8 +1357,8 @@ def upsample(
     nt = signal.shape[-1]
     up_nt = nt * step_ratio
     signal_f = torch.fft.rfft(signal, norm="ortho") * math.sqrt(step_ratio)
-    if freq_taper_frac > 0.0:
-        freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    if freq_taper_len > 0:
         signal_f = cosine_taper_end(signal_f, freq_taper_len)
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
@@ -1449,8 +1449,8 @@ def downsample(
     nt = signal.shape[-1]
     down_nt = nt // step_ratio
     signal_f = torch.fft.rfft(signal, norm="ortho")[..., : down_nt // 2 + 1]
-    if freq_taper_frac > 0.0:
-        freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    if freq_taper_len > 0:
         signal_f = cosine_taper_end(signal_f, freq_taper_len)
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
-- 
2.43.0


From 4355196f7fb610f0f3cf9a4c8aabfe11f3f3276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 11/24] fix: place Hicks windows around locations between the
 edge and the first grid point

---
 src/deepwave/location_interpolation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 4217ffa..6e1b2a2 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -57,7 +57,10 @@ def _get_hicks_for_one_location_dim(
         locations = torch.tensor([location]).round().long().to(beta.device)
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
-        key = (int((location - int(location)) / eps), halfwidth, int(monopole))
+        # int() would round locations between the edge and the first grid point
+        # (which are negative) towards zero
+        cell = math.floor(location)
+        key = (int((location - cell) / eps), halfwidth, int(monopole))
         x = (
             torch.arange(
                 -halfwidth + 1,
@@ -66,7 +69,7 @@ def _get_hicks_for_one_location_dim(
                 device=beta.device,
             )
             - location
-            + int(location)
+            + cell
         )
         locations = (location + x).round().long()
 
-- 
2.43.0


From 519d11593c6fc8f249b69a756f75204217d253cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 12/24] fix: accept Hicks dipoles on a free surface at the end
 of a dimension

---
 src/deepwave/location_interpolation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 6e1b2a2..d782ff1 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -111,6 +111,10 @@ def _get_hicks_for_one_location_dim(
             )
             locations = locations[: idx0 + 1]
             flipped_weights = weights[idx1 + 1 :].flip(0)
+            if len(flipped_weights) == idx0 + 2:
+                # The window of a dipole on a grid point reaches one point
+                # further in this direction than in the other
+                flipped_weights = flipped_weights[1:]
             weights[idx0 + 1 - len(flipped_weights) : idx0 + 1] -= flipped_weights
             weights = weights[: idx0 + 1]
     return locations, weights
-- 
2.43.0


From 06b02e8408ea952026c469295f89a701f42d7c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 13/24] fix: keep the PML profiles finite when pml_freq is zero

---
 src/deepwave/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 59b785f..4bfea55 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2571,6 +2571,7 @@ def setup_pml(
     a = torch.exp(-sigmaalpha * abs(dt))
     b = sigma / sigmaalpha * (a - 1)
     a[pml_frac == 0] = 0
+    b[pml_frac == 0] = 0  # 0 / 0 when pml_freq is zero
     return a, b
 
 
-- 
2.43.0


From f9cd91806a80831b5bd317dc53b1e5ee49e14a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 14/24] fix: reject locations with only some coordinates
 ignored

They were used to index outside the wavefields.
---
 src/deepwave/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 4bfea55..2865361 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1630,6 +1630,12 @@ def check_locations_are_within_model(
 
     for location in locations:
         if location is not None:
+            ignored = location == IGNORE_LOCATION
+            if (ignored.any(dim=-1) != ignored.all(dim=-1)).any():
+                raise RuntimeError(
+                    "Either all or none of the coordinates of a location must be "
+                    "IGNORE_LOCATION.",
+                )
             for dim, model_dim_shape in enumerate(model_shape):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
-- 
2.43.0


From c488dc27265454e1b480af6cd6fd4ef68ee5ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 15/24] fix: reject NaN locations

No comparison with NaN is true, so they passed the bounds checks and were
used to index outside the wavefields.
---
 src/deepwave/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 2865361..9cebc09 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1641,9 +1641,9 @@ def check_locations_are_within_model(
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
                 if dim_location.numel() == 0:
                     continue
-                if dim_location.min() < 0:
+                if not dim_location.min() >= 0:
                     raise RuntimeError("Locations must be >= 0.")
-                if dim_location.max() >= model_dim_shape:
+                if not dim_location.max() < model_dim_shape:
                     raise RuntimeError("Locations must be within model.")
 
 
-- 
2.43.0


From 073199a8b15a353dba84c4382eca6aa066c2e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 16/24] fix: reject amplitudes of sources of dimensions the
 propagation lacks

acoustic and elastic ignored source_amplitudes_z (_y) in a 2D (1D) model.
---
 src/deepwave/acoustic.py | 12 ++++++++----
 src/deepwave/elastic.py  | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 3ddcc68..413c3e5 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -386,19 +386,23 @@ def acoustic(
         [vx_0, phi_x_0, psi_x_0],
     )
     if ndim < 3 and (
-        source_locations_z is not None or receiver_locations_z is not None
+        source_amplitudes_z is not None
+        or source_locations_z is not None
+        or receiver_locations_z is not None
     ):
         raise ValueError(
             "The propagation was determined to be "
-            f"{ndim}d, so locations related to the "
+            f"{ndim}d, so amplitudes and locations related to the "
             "z dimension should not be provided."
         )
     if ndim < 2 and (
-        source_locations_y is not None or receiver_locations_y is not None
+        source_amplitudes_y is not None
+        or source_locations_y is not None
+        or receiver_locations_y is not None
     ):
         raise ValueError(
             "The propagation was determined to be "
-            f"{ndim}d, so locations related to the "
+            f"{ndim}d, so amplitudes and locations related to the "
             "y dimension should not be provided."
         )
 
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 6b30649..ca90548 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -695,19 +695,23 @@ def elastic(
         [vx_0, m_vxx_0, m_sigmaxxx_0],
     )
     if ndim < 3 and (
-        source_locations_z is not None or receiver_locations_z is not None
+        source_amplitudes_z is not None
+        or source_locations_z is not None
+        or receiver_locations_z is not None
     ):
         raise ValueError(
             "The propagation was determined to be "
-            f"{ndim}d, so locations related to the "
+            f"{ndim}d, so amplitudes and locations related to the "
             "z dimension should not be provided."
         )
     if ndim < 2 and (
-        source_locations_y is not None or receiver_locations_y is not None
+        source_amplitudes_y is not None
+        or source_locations_y is not None
+        or receiver_locations_y is not None
     ):
         raise ValueError(
             "The propagation was determined to be "
-            f"{ndim}d, so locations related to the "
+            f"{ndim}d, so amplitudes and locations related to the "
             "y dimension should not be provided."
         )
 
-- 
2.43.0


From d06a6c732f7f017f8c34a984e89ff8586a498310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 17/24] fix: reject storage_compression in the acoustic Python
 backend

It was silently ignored; the other propagators reject it.
---
 src/deepwave/acoustic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 413c3e5..15edcb4 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1375,6 +1375,10 @@ def acoustic_python(
         raise RuntimeError(
             "Specifying storage mode is not supported in Python backend."
         )
+    if storage_compression:
+        raise RuntimeError(
+            "Storage compression is not supported in the Python backend."
+        )
 
     is_batched = any(deepwave.common.is_inside_vmap(x) for x in args)
     ndim = len(grid_spacing)
-- 
2.43.0


From e80b88200e73b9e2ba8034acbfc343c5889cd790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 18/24] fix: let initial wavefields be used with torch.func
 transforms of the models

---
 src/deepwave/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 9cebc09..f0c32b9 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2613,9 +2613,11 @@ def create_or_pad(
     if max(fd_pad) == 0:
         return tensor.clone()
     reversed_fd_pad = reverse_pad(fd_pad)
-    return (torch.nn.functional.pad(tensor, reversed_fd_pad)).requires_grad_(
-        tensor.requires_grad
-    )
+    padded = torch.nn.functional.pad(tensor, reversed_fd_pad)
+    if tensor.requires_grad and not padded.requires_grad:
+        # Not needed (or permitted) inside torch.func transforms.
+        padded.requires_grad_()
+    return padded
 
 
 def zero_interior(
-- 
2.43.0


From d1dcb77c43336af4062550b0192dac6e107f1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 19/24] fix: do not make torch.compile's recompile limit a hard
 failure of the compile backend

---
 src/deepwave/acoustic.py    | 8 ++------
 src/deepwave/elastic.py     | 8 ++------
 src/deepwave/scalar.py      | 2 +-
 src/deepwave/scalar_born.py | 2 +-
 4 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 15edcb4..1729b1b 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1604,14 +1604,10 @@ def acoustic_func(
             _update_pressure_opt = _update_pressure_jit
         elif mode == "compile":
             if _update_velocities_compile is None:
-                _update_velocities_compile = torch.compile(
-                    update_velocities, fullgraph=True
-                )
+                _update_velocities_compile = torch.compile(update_velocities)
             _update_velocities_opt = _update_velocities_compile
             if _update_pressure_compile is None:
-                _update_pressure_compile = torch.compile(
-                    update_pressure, fullgraph=True
-                )
+                _update_pressure_compile = torch.compile(update_pressure)
             _update_pressure_opt = _update_pressure_compile
         elif mode == "eager":
             _update_velocities_opt = update_velocities
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index ca90548..9bb482f 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -2779,14 +2779,10 @@ def elastic_func(
             _update_stresses_opt = _update_stresses_jit
         elif mode == "compile":
             if _update_velocities_compile is None:
-                _update_velocities_compile = torch.compile(
-                    update_velocities, fullgraph=True
-                )
+                _update_velocities_compile = torch.compile(update_velocities)
             _update_velocities_opt = _update_velocities_compile
             if _update_stresses_compile is None:
-                _update_stresses_compile = torch.compile(
-                    update_stresses, fullgraph=True
-                )
+                _update_stresses_compile = torch.compile(update_stresses)
             _update_stresses_opt = _update_stresses_compile
         elif mode == "eager":
             _update_velocities_opt = update_velocities
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index 1a48cc1..03acf9b 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -2142,7 +2142,7 @@ def scalar_func(
             _forward_step_opt = _forward_step_jit
         elif mode == "compile":
             if _forward_step_compile is None:
-                _forward_step_compile = torch.compile(_forward_step, fullgraph=True)
+                _forward_step_compile = torch.compile(_forward_step)
             _forward_step_opt = _forward_step_compile
         elif mode == "eager":
             _forward_step_opt = _forward_step
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 9160e5f..76b14ea 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -1792,7 +1792,7 @@ def scalar_born_func(
             _forward_step_opt = _forward_step_jit
         elif mode == "compile":
             if _forward_step_compile is None:
-                _forward_step_compile = torch.compile(_forward_step, fullgraph=True)
+                _forward_step_compile = torch.compile(_forward_step)
             _forward_step_opt = _forward_step_compile
         elif mode == "eager":
             _forward_step_opt = _forward_step
-- 
2.43.0


From 234e230579c9756316d6d3884382e60216b114ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 20/24] fix: make padded wavefields and gradients row-major
 whatever the memory format of the input

---
 src/deepwave/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index f0c32b9..2b62a8c 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2610,10 +2610,12 @@ def create_or_pad(
         fd_pad = [fd_pad] * (len(size) - 1) * 2
     if tensor.numel() == 0:
         return torch.zeros(size, device=device, dtype=dtype)
+    # The propagators need row-major memory: neither clone() nor pad() ensures
+    # it (both may keep the memory format of the input).
     if max(fd_pad) == 0:
-        return tensor.clone()
+        return tensor.clone(memory_format=torch.contiguous_format)
     reversed_fd_pad = reverse_pad(fd_pad)
-    padded = torch.nn.functional.pad(tensor, reversed_fd_pad)
+    padded = torch.nn.functional.pad(tensor, reversed_fd_pad).contiguous()
     if tensor.requires_grad and not padded.requires_grad:
         # Not needed (or permitted) inside torch.func transforms.
         padded.requires_grad_()
-- 
2.43.0


From 9596476de692edd425323d6b2aa0adf4757108e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 21/24] fix: a full or failing disk silently gave wrong
 gradients

In disk storage mode the CPU backend ignored the results of opening,
writing, closing and reading snapshot files, so that a full disk or a
shortened file gave wrong gradients without any error, and a missing file
crashed the process. Failures are now returned, so that the propagator
raises "Compiled backend failed." as it already did for failed reads on
the GPU.
---
 src/deepwave/acoustic.c       | 18 ++++++------
 src/deepwave/elastic.c        | 16 ++++++-----
 src/deepwave/scalar.c         | 18 ++++++------
 src/deepwave/scalar_born.c    | 35 ++++++++++++-----------
 src/deepwave/storage_utils.c  | 52 ++++++++++++++++++-----------------
 src/deepwave/storage_utils.cu |  2 +-
 src/deepwave/storage_utils.h  | 30 ++++++++++----------
 7 files changed, 91 insertions(+), 80 deletions(-)

diff --git a/src/deepwave/acoustic.c b/src/deepwave/acoustic.c
index 708aa01..d9f4aeb 100644
--- a/src/deepwave/acoustic.c
+++ b/src/deepwave/acoustic.c
@@ -288,8 +288,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int failed = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 
@@ -612,7 +613,7 @@ __declspec(dllexport)
 #define SAVE_SNAPSHOT(name, grad_cond)                                     \
   if (grad_cond) {                                                         \
     int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
+    failed |= STORAGE_FUNC(save_snapshot_cpu)(                             \
         name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
         DIM_ARGS);                                                         \
@@ -629,7 +630,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) failed = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -640,7 +641,7 @@ __declspec(dllexport)
 #endif
     CLOSE_FILE(bx_grad)
   }
-  return 0;
+  return failed;
 }
 
 #ifdef _WIN32
@@ -844,8 +845,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int failed = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #ifdef _OPENMP
@@ -949,7 +951,7 @@ __declspec(dllexport)
           (int64_t)shot_bytes_comp;                                          \
   if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
     int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
+    failed |= STORAGE_FUNC(load_snapshot_cpu)(                               \
         (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
         DIM_ARGS);                                                           \
@@ -1211,7 +1213,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) failed = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -1242,5 +1244,5 @@ __declspec(dllexport)
   }
 #endif /* _OPENMP */
 
-  return 0;
+  return failed;
 }
diff --git a/src/deepwave/elastic.c b/src/deepwave/elastic.c
index 88d0dae..be6a843 100644
--- a/src/deepwave/elastic.c
+++ b/src/deepwave/elastic.c
@@ -625,8 +625,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int failed = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1236,7 +1237,7 @@ __declspec(dllexport)
 #define SAVE_SNAPSHOT(name, grad_cond)                                     \
   if (grad_cond) {                                                         \
     int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
+    failed |= STORAGE_FUNC(save_snapshot_cpu)(                             \
         name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
         DIM_ARGS);                                                         \
@@ -1258,7 +1259,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) failed = 1;
 
 #if DW_NDIM >= 3
     CLOSE_FILE(dvzdbuoyancy)
@@ -1274,7 +1275,7 @@ __declspec(dllexport)
     CLOSE_FILE(dvxdbuoyancy)
     CLOSE_FILE(dvxdx)
   }
-  return 0;
+  return failed;
 }
 
 #ifdef _WIN32
@@ -1529,8 +1530,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int failed = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1661,7 +1663,7 @@ __declspec(dllexport)
           (int64_t)shot_bytes_comp;                                          \
   if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
     int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
+    failed |= STORAGE_FUNC(load_snapshot_cpu)(                               \
         (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
         storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
         DIM_ARGS);                                                           \
@@ -2250,5 +2252,5 @@ __declspec(dllexport)
                          nx);
   }
 #endif /* _OPENMP */
-  return 0;
+  return failed;
 }
diff --git a/src/deepwave/scalar.c b/src/deepwave/scalar.c
index 06505e2..49af5f2 100644
--- a/src/deepwave/scalar.c
+++ b/src/deepwave/scalar.c
@@ -231,8 +231,9 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int failed = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -398,7 +399,7 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        failed |= STORAGE_FUNC(save_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -410,9 +411,9 @@ __declspec(dllexport)
                             r + t * n_shots * n_receivers_per_shot + ri,
                             n_receivers_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) failed = 1;
   }
-  return 0;
+  return failed;
 }
 
 #ifdef _WIN32
@@ -517,8 +518,9 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int failed = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -589,7 +591,7 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        failed |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -699,12 +701,12 @@ __declspec(dllexport)
                             grad_f + t * n_shots * n_sources_per_shot + si,
                             n_sources_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) failed = 1;
   }
 #ifdef _OPENMP
   if (v_requires_grad && !v_batched && n_threads > 1) {
     combine_grad(grad_v, grad_v_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return failed;
 }
diff --git a/src/deepwave/scalar_born.c b/src/deepwave/scalar_born.c
index ce76acd..1268ca5 100644
--- a/src/deepwave/scalar_born.c
+++ b/src/deepwave/scalar_born.c
@@ -281,9 +281,10 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int failed = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -518,13 +519,13 @@ __declspec(dllexport)
       // Save Snapshots
       if (v_or_scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        failed |= STORAGE_FUNC(save_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
+        failed |= STORAGE_FUNC(save_snapshot_cpu)(
             wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
             storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
             DIM_ARGS);
@@ -544,10 +545,10 @@ __declspec(dllexport)
                             n_receiverssc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w) != 0) failed = 1;
+    if (fp_wsc && fclose(fp_wsc) != 0) failed = 1;
   }
-  return 0;
+  return failed;
 }
 
 #ifdef _WIN32
@@ -696,9 +697,10 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int failed = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -827,14 +829,14 @@ __declspec(dllexport)
 
       if (v_requires_grad_t || scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        failed |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        failed |= STORAGE_FUNC(load_snapshot_cpu)(
             wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
             storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
             DIM_ARGS);
@@ -977,8 +979,8 @@ __declspec(dllexport)
           n_sourcessc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w) != 0) failed = 1;
+    if (fp_wsc && fclose(fp_wsc) != 0) failed = 1;
   }
 #ifdef _OPENMP
   if (v_requires_grad && !v_batched && n_threads > 1) {
@@ -988,7 +990,7 @@ __declspec(dllexport)
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return failed;
 }
 
 #ifdef _WIN32
@@ -1097,9 +1099,10 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int failed = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : failed)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -1179,7 +1182,7 @@ __declspec(dllexport)
 
       if (scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
+        failed |= STORAGE_FUNC(load_snapshot_cpu)(
             w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
             step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
       }
@@ -1284,12 +1287,12 @@ __declspec(dllexport)
           n_sourcessc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) failed = 1;
   }
 #ifdef _OPENMP
   if (scatter_requires_grad && !scatter_batched && n_threads > 1) {
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return failed;
 }
diff --git a/src/deepwave/storage_utils.c b/src/deepwave/storage_utils.c
index 5f9a813..73a1882 100644
--- a/src/deepwave/storage_utils.c
+++ b/src/deepwave/storage_utils.c
@@ -8,24 +8,24 @@
 
 #if defined(DW_NDIM) && defined(DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
-                                     void* const store_2, FILE* const fp,
-                                     int64_t const storage_mode,
-                                     bool const use_compression,
-                                     int64_t const step_idx,
-                                     size_t const step_bytes_uncomp,
-                                     size_t const step_bytes_comp,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
+                                    void* const store_2, FILE* const fp,
+                                    int64_t const storage_mode,
+                                    bool const use_compression,
+                                    int64_t const step_idx,
+                                    size_t const step_bytes_uncomp,
+                                    size_t const step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx) {
+                                    size_t nx) {
   void const* source = store_1;
   size_t size_to_write = step_bytes_uncomp;
 
-  if (storage_mode == STORAGE_NONE) return;
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (use_compression) {
     SC_FUNC(compress_cpu)(store_1, store_2,
@@ -43,33 +43,34 @@ void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
   if (storage_mode == STORAGE_DISK) {
     // Append to file
     int64_t const offset = step_idx * (int64_t)size_to_write;
-    fseek(fp, offset, SEEK_SET);
-    fwrite(source, 1, size_to_write, fp);
+    if (fp == NULL || fseek(fp, offset, SEEK_SET) != 0) return 1;
+    if (fwrite(source, 1, size_to_write, fp) != size_to_write) return 1;
   }
+  return 0;
 }
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
-                                     FILE* const fp, int64_t const storage_mode,
-                                     bool const use_compression,
-                                     int64_t const step_idx,
-                                     size_t const step_bytes_uncomp,
-                                     size_t const step_bytes_comp,
+int STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
+                                    FILE* const fp, int64_t const storage_mode,
+                                    bool const use_compression,
+                                    int64_t const step_idx,
+                                    size_t const step_bytes_uncomp,
+                                    size_t const step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx) {
-  if (storage_mode == STORAGE_NONE) return;
+                                    size_t nx) {
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (storage_mode == STORAGE_DISK) {
     void* const read_dst = use_compression ? store_2 : store_1;
     size_t const size_to_read =
         use_compression ? step_bytes_comp : step_bytes_uncomp;
     int64_t const offset = step_idx * (int64_t)size_to_read;
-    fseek(fp, offset, SEEK_SET);
-    fread(read_dst, 1, size_to_read, fp);
+    if (fp == NULL || fseek(fp, offset, SEEK_SET) != 0) return 1;
+    if (fread(read_dst, 1, size_to_read, fp) != size_to_read) return 1;
   }
 
   if (use_compression) {
@@ -82,6 +83,7 @@ void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
 #endif
                           nx);
   }
+  return 0;
 }
 
 #endif
\ No newline at end of file
diff --git a/src/deepwave/storage_utils.cu b/src/deepwave/storage_utils.cu
index a307ec4..064590e 100644
--- a/src/deepwave/storage_utils.cu
+++ b/src/deepwave/storage_utils.cu
@@ -57,7 +57,7 @@ int STORAGE_FUNC(save_snapshot_gpu)(
     cudaStreamSynchronize((cudaStream_t)stream);
     int64_t const offset = step_idx * (int64_t)bytes_to_store;
     fseek(fp, offset, SEEK_SET);
-    fwrite(store_3, 1, bytes_to_store, fp);
+    if (fwrite(store_3, 1, bytes_to_store, fp) != bytes_to_store) return 1;
   }
   return 0;
 }
diff --git a/src/deepwave/storage_utils.h b/src/deepwave/storage_utils.h
index 0927968..9384342 100644
--- a/src/deepwave/storage_utils.h
+++ b/src/deepwave/storage_utils.h
@@ -20,18 +20,18 @@ extern "C" {
 #define SS_CAT(name, ndim, dtype) SS_CAT_I(name, ndim, dtype)
 #define STORAGE_FUNC(name) SS_CAT(name, DW_NDIM, DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
-                                     FILE* fp, int64_t storage_mode,
-                                     bool use_compression, int64_t step_idx,
-                                     size_t step_bytes_uncomp,
-                                     size_t step_bytes_comp,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
+                                    FILE* fp, int64_t storage_mode,
+                                    bool use_compression, int64_t step_idx,
+                                    size_t step_bytes_uncomp,
+                                    size_t step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx);
+                                    size_t nx);
 
 int STORAGE_FUNC(save_snapshot_gpu)(void const* store_1, void* store_2,
                                     void* store_3, FILE* fp,
@@ -46,17 +46,17 @@ int STORAGE_FUNC(save_snapshot_gpu)(void const* store_1, void* store_2,
 #endif
                                     size_t nx, void* stream);
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
-                                     int64_t storage_mode, bool use_compression,
-                                     int64_t step_idx, size_t step_bytes_uncomp,
-                                     size_t step_bytes_comp,
+int STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
+                                    int64_t storage_mode, bool use_compression,
+                                    int64_t step_idx, size_t step_bytes_uncomp,
+                                    size_t step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx);
+                                    size_t nx);
 
 int STORAGE_FUNC(load_snapshot_gpu)(void* store_1, void* store_2, void* store_3,
                                     FILE* fp, int64_t storage_mode,
-- 
2.43.0


From bc222c579a1b00fe3fddf94a14301f4efcd8bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 22/24] fix: Hicks silently accepted locations, dipole
 directions and amplitudes that do not fit

Locations with other than two coordinates, dipoles in a dimension other
than 0 or 1, source or receiver amplitudes for other than all shots
(without shot_idxs) and source amplitudes for other than all points gave
a wrong result or one for a part of the points; they now raise
RuntimeError like the other inconsistent arguments.
---
 src/deepwave/location_interpolation.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index d782ff1..6492495 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -225,9 +225,16 @@ def _get_hicks_locations_and_weights(
 
 def _check_shot_idxs(
     amplitudes: torch.Tensor,
+    n_shots: int,
     shot_idxs: Optional[torch.Tensor] = None,
 ) -> None:
-    if shot_idxs is not None and shot_idxs.shape != (len(amplitudes),):
+    if shot_idxs is None:
+        if len(amplitudes) != n_shots:
+            raise RuntimeError(
+                f"amplitudes must be for all {n_shots} shots unless shot_idxs "
+                "are specified"
+            )
+    elif shot_idxs.shape != (len(amplitudes),):
         raise RuntimeError("shot_idxs must have the same length as amplitudes")
 
 
@@ -319,6 +326,8 @@ class Hicks:
             raise TypeError("locations must be a torch.Tensor.")
         if locations.ndim != 3:
             raise RuntimeError("locations must have three dimensions.")
+        if locations.shape[-1] != 2:
+            raise RuntimeError("locations must have two coordinates per point.")
         if not isinstance(dtype, torch.dtype):
             raise TypeError("dtype must be a torch.dtype.")
         if not isinstance(halfwidth, int):
@@ -369,6 +378,12 @@ class Hicks:
             or dipole_dim.shape[1] != locations.shape[1]
         ):
             raise RuntimeError("dipole_dim must have dimensions [shot, per_shot]")
+        if not torch.all(
+            torch.as_tensor(monopole).bool()
+            | (torch.as_tensor(dipole_dim) == 0)
+            | (torch.as_tensor(dipole_dim) == 1)
+        ):
+            raise RuntimeError("dipole_dim must be 0 or 1 for dipoles")
         betas = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
         beta = torch.tensor(betas[halfwidth - 1]).to(dtype).to(locations.device)
         self.locations = locations
@@ -436,8 +451,12 @@ class Hicks:
         if amplitudes.ndim != 3:
             raise RuntimeError("amplitudes must have three dimensions.")
 
-        _check_shot_idxs(amplitudes, shot_idxs)
+        _check_shot_idxs(amplitudes, len(self.locations), shot_idxs)
         n_shots, n_per_shot, nt = amplitudes.shape
+        if n_per_shot != self.locations.shape[1]:
+            raise RuntimeError(
+                f"amplitudes must be for {self.locations.shape[1]} points per shot"
+            )
         n_per_shot_hicks = self.hicks_locations.shape[1]
         # In the below I put `out` on the CPU because there seems to
         # be a bug (in PyTorch?) that causes the incorrect answer
@@ -491,7 +510,7 @@ class Hicks:
         if amplitudes.ndim != 3:
             raise RuntimeError("amplitudes must have three dimensions.")
 
-        _check_shot_idxs(amplitudes, shot_idxs)
+        _check_shot_idxs(amplitudes, len(self.locations), shot_idxs)
         n_shots, _, nt = amplitudes.shape
         n_per_shot = self.locations.shape[1]
         out = torch.zeros(
-- 
2.43.0


From 22242e459f97b8a2e535abb3a8d3f74cfe7a634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 23/24] fix: tapers and time shifts took the default dtype of
 torch instead of the signal's

With a default dtype of float64 and float32 inputs, time_taper=True gave
the compiled propagators float64 amplitudes that they read as float32,
and so NaN or arbitrary results; with float64 inputs and the usual
default dtype the tapers were only accurate to single precision.
---
 src/deepwave/common.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 2b62a8c..c2a612d 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1236,7 +1236,11 @@ def cosine_taper_end(signal: torch.Tensor, n_taper: int) -> torch.Tensor:
     if n_taper > 0:
         taper_values = (
             torch.cos(
-                torch.arange(1, n_taper + 1, device=signal.device) / n_taper * math.pi
+                torch.arange(
+                    1, n_taper + 1, device=signal.device, dtype=torch.float64
+                )
+                / n_taper
+                * math.pi
             )
             + 1
         ).to(signal.dtype) / 2
@@ -1373,6 +1377,7 @@ def upsample(
             signal.shape[-1],
             periodic=False,
             device=signal.device,
+            dtype=signal.dtype,
         )
     return signal
 
@@ -1438,6 +1443,7 @@ def downsample(
             signal.shape[-1],
             periodic=False,
             device=signal.device,
+            dtype=signal.dtype if signal.is_floating_point() else None,
         )
     n_time_pad = (
         int(time_pad_frac * (signal.shape[-1] // step_ratio))
@@ -1455,9 +1461,9 @@ def downsample(
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
     if shift != 0.0:
-        freqs = torch.fft.rfftfreq(signal.shape[-1], device=signal.device)[
-            : down_nt // 2 + 1
-        ]
+        freqs = torch.fft.rfftfreq(
+            signal.shape[-1], device=signal.device, dtype=torch.float64
+        )[: down_nt // 2 + 1]
         signal_f *= torch.exp(-1j * 2 * math.pi * freqs * shift)
     signal = torch.fft.irfft(signal_f, n=down_nt, norm="ortho") / math.sqrt(step_ratio)
     if n_time_pad > 0:
-- 
2.43.0


From dbd1f92c94b8aec6c6638dcaf07eb5d0f081634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:32 +0000
Subject: [PATCH 24/24] fix: disk storage lost its files when the working
 directory changed or a forked child ended

---
 src/deepwave/common.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index c2a612d..fbbf4f3 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -56,7 +56,12 @@ class TemporaryStorage:
             base_path: The base path for the temporary directory.
             num_files: The number of files to create.
         """
-        self.base_dir = Path(base_path) / f"deepwave_tmp_{os.getpid()}_{uuid4().hex}"
+        # Absolute, so that it still refers to the same place if the working
+        # directory changes.
+        self.base_dir = (
+            Path(base_path).absolute() / f"deepwave_tmp_{os.getpid()}_{uuid4().hex}"
+        )
+        self.pid = os.getpid()
         self.base_dir.mkdir(parents=True, exist_ok=True)
         self.filenames: List[bytes] = []
 
@@ -71,7 +76,8 @@ class TemporaryStorage:
 
     def close(self) -> None:
         """Close the storage and remove the temporary directory."""
-        if self.base_dir.exists():
+        # A forked child does not own the files of its parent.
+        if os.getpid() == self.pid and self.base_dir.exists():
             with contextlib.suppress(OSError):
                 shutil.rmtree(self.base_dir)
 
-- 
2.43.0

