From 012f360e43c2304fc53794fe8b7b2ab5fc72eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 01/50] fix: select the reconstruction with the lowest loss
 instead of the last one

---
 egenerator/manager/reconstruction/modules/reconstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/reconstruction.py b/egenerator/manager/reconstruction/modules/reconstruction.py
index f740713..7ea741e 100644
--- a/egenerator/manager/reconstruction/modules/reconstruction.py
+++ b/egenerator/manager/reconstruction/modules/reconstruction.py
@@ -341,7 +341,6 @@ class SelectBestReconstruction:
             if reco_results['loss_reco'] < min_loss:
                 min_loss = reco_results['loss_reco']
                 min_results = reco_results
-        min_results = dict(reco_results)
 
         if min_results is None:
 
@@ -351,7 +350,8 @@ class SelectBestReconstruction:
                 reco_name))
             min_results = reco_results
 
-        # rename runtime key of result
+        # rename runtime key of result (leave the original results untouched)
+        min_results = dict(min_results)
         min_results['reco_runtime'] = min_results.pop('runtime')
 
         return min_results
-- 
2.43.0


From 2e81e2fbe786062a4995de2477e1648f5bc67dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 02/50] fix: covariance matrix for fits in the untransformed
 parameter space

---
 egenerator/manager/reconstruction/modules/covariance.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/covariance.py b/egenerator/manager/reconstruction/modules/covariance.py
index 6591592..8c0d9d1 100644
--- a/egenerator/manager/reconstruction/modules/covariance.py
+++ b/egenerator/manager/reconstruction/modules/covariance.py
@@ -157,6 +157,13 @@ class CovarianceMatrix:
                     cov_trafo=result_obj.hess_inv,
                     tensor_name=self.parameter_tensor_name,
                 )
+        else:
+            # minimization was performed in the original parameter space
+            cov = cov_trafo
+            cov_sand = cov_sand_trafo
+            if hasattr(result_obj, 'hess_inv'):
+                cov_sand_fit = cov_sand_fit_trafo
+                cov_fit = result_obj.hess_inv
 
         results = {
             'cov': cov,
-- 
2.43.0


From 8191894dea5f555929914675d7504fa6abdaab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 03/50] fix: pass only the bounds of fitted parameters to the
 optimizer

---
 egenerator/manager/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 33c7fe0..76e7aad 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -676,7 +676,8 @@ class SourceManager(BaseModelManager):
                     for j in range(2):
                         if not np.isfinite(bound[j]):
                             bounds[i, j] = None
-                kwargs['bounds'] = bounds
+                # only fitted parameters are passed on to the optimizer
+                kwargs['bounds'] = bounds[list(fit_paramater_list)]
 
             seed_array_trafo = self.data_trafo.transform(
                 data=seed_array, tensor_name=parameter_tensor_name)
-- 
2.43.0


From 458ba08a2fdf76c9bc86d167e2f87aa7bbe8fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 04/50] fix: partial fits with the tensorflow-probability
 optimizers

---
 egenerator/manager/source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 76e7aad..7f8ba35 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1052,7 +1052,8 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = tf.boolean_mask(seed_array_trafo, fit_paramater_list, axis=1)
+            x0 = tf.ensure_shape(x0, [None, num_fit_params])
 
         # convert to tensors
         def const_loss_and_gradients_function(x):
-- 
2.43.0


From c7e460ca9290190697ac35ee3d56b25e016c0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 05/50] fix: return the best point of the final population in
 spherical_opt

---
 egenerator/utils/spherical_opt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 171d146..374bff9 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -620,6 +620,8 @@ def spherical_opt(
                     fvals[idx] = func(x[idx])
                     n_calls += 1
 
+    # the last iteration may have found a better point
+    best_idx = np.argmin(fvals)
 
     opt_meta = {}
     opt_meta['stopping_flag'] = stopping_flag
-- 
2.43.0


From 9151e187c8583ecd27a8fc7ba6ffb22b1eee1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 06/50] fix: keep fractional standard deviations in the
 spherical_opt stopping criteria

---
 egenerator/utils/spherical_opt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 374bff9..d039100 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -299,8 +299,8 @@ def spherical_opt(
     n_spher = len(spherical_indices)
     n_cart = n_dim - 2 * n_spher
 
-    sstd = np.full(n_spher, fill_value=-1)
-    cstd = np.full(n_cart, fill_value=-1)
+    sstd = np.full(n_spher, fill_value=-1.)
+    cstd = np.full(n_cart, fill_value=-1.)
 
     if meta:
         meta_dict = {}
@@ -424,7 +424,7 @@ def spherical_opt(
                                 meta_dict['sstdthresh_met_at_iter'][thresh_idx] = iter_num
                         thresh_idx += 1
                     else:
-                        sstd[i] = -1
+                        sstd[sph_pair_idx] = -1
 
             if converged:
                 stopping_flag = 3
-- 
2.43.0


From 63e48d365f9887857d558e514f7f10dd17ba8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 07/50] fix: evaluate each source of a multi-source model with
 its own base source

---
 egenerator/model/multi_source/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index d8f95af..5fabef1 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -316,10 +316,9 @@ class MultiSource(Source):
         # -----------------------------------------------
         input_signature = None
 
-        concrete_get_tensors_funcs = {}
-        for base in set(self._untracked_data['sources'].values()):
-            base_source = self.sub_components[base]
-
+        def get_concrete_function(base, base_source):
+            # bind base and base_source to this function: it is only traced
+            # once it is called, i.e. after the loop over all base sources
             @tf.function(input_signature=input_signature)
             def concrete_function(data_batch_dict_i):
                 print('Tracing multi-source base: {}'.format(base))
@@ -327,7 +326,12 @@ class MultiSource(Source):
                                 data_batch_dict_i,
                                 is_training=is_training,
                                 parameter_tensor_name='x_parameters')
-            concrete_get_tensors_funcs[base] = concrete_function
+            return concrete_function
+
+        concrete_get_tensors_funcs = {}
+        for base in set(self._untracked_data['sources'].values()):
+            concrete_get_tensors_funcs[base] = get_concrete_function(
+                base, self.sub_components[base])
         # -----------------------------------------------
 
         dom_charges = None
-- 
2.43.0


From d83877cde32960b8cbb34c4465c2872a856e5cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 08/50] fix: do not append all parameters to the sources of a
 track without snowstorm parameters

---
 egenerator/model/multi_source/track/stochastic_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/track/stochastic_track.py b/egenerator/model/multi_source/track/stochastic_track.py
index b700a17..eb957f9 100644
--- a/egenerator/model/multi_source/track/stochastic_track.py
+++ b/egenerator/model/multi_source/track/stochastic_track.py
@@ -119,7 +119,8 @@ class StochasticTrackModel(MultiSource):
         d_end = parameters.params['track_distance_end']
 
         num_snowstorm_params = self._untracked_data['num_snowstorm_params']
-        snowstorm_params = parameters[:, -num_snowstorm_params:]
+        snowstorm_params = parameters[
+            :, self.num_parameters - num_snowstorm_params:]
 
         # calculate direction vector
         dir_x = -tf.sin(zenith) * tf.cos(azimuth)
-- 
2.43.0


From e04f1f6512fe9ea99c2924d679ac33e5ea511f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 09/50] fix: accept data tensors of type bool with NumPy >=
 1.24

---
 egenerator/data/handler/base.py | 6 +++---
 egenerator/data/tensor.py       | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 8ce7e16..ac650d0 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -336,7 +336,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(data[i])
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
 
         return num_events, tuple(data_tensors)
 
@@ -383,7 +383,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(tf.convert_to_tensor(data[i]))
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
         return tuple(data_tensors)
 
     def _get_data_from_frame(self, frame, *args, **kwargs):
@@ -929,7 +929,7 @@ class BaseDataHandler(BaseComponent):
                                     indices[:, 0] = size
                                     batch[i].append(indices)
                             else:
-                                batch[i].append(getattr(np, tensor.dtype)())
+                                batch[i].append(np.dtype(tensor.dtype).type())
                                 # batch[i].append(None)
                         size += 1
 
diff --git a/egenerator/data/tensor.py b/egenerator/data/tensor.py
index a92da26..ca95e1f 100644
--- a/egenerator/data/tensor.py
+++ b/egenerator/data/tensor.py
@@ -21,7 +21,7 @@ class DataTensor(object):
             The type of tensor: 'data', 'label', 'weight', 'misc'
         dtype : str
             The data type of the tensor as str.
-            getattr(np, dtype) and getattr(tf, dtype) must exist.
+            np.dtype(dtype) and getattr(tf, dtype) must exist.
         exists : bool, optional
             Indicates whether this data tensor is being loaded.
         vector_info : dict, optional
@@ -95,8 +95,10 @@ class DataTensor(object):
         if not isinstance(self.dtype, str):
             raise ValueError('{!r} != {!r}'.format(type(self.dtype), str))
 
-        if not hasattr(np, self.dtype):
-            raise ValueError('Invalid dtype str: {!r}'.format(self.type))
+        try:
+            np.dtype(self.dtype)
+        except TypeError:
+            raise ValueError('Invalid dtype str: {!r}'.format(self.dtype))
 
         if self.vector_info is not None:
             if self.vector_info['type'] not in ['index', 'value']:
-- 
2.43.0


From 498e56e0ad05e97f33605a4c201011202d2b3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 10/50] fix: keep the likelihood when adding normalization to
 sorted terms of the extended pulse loss

---
 egenerator/loss/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 8d65c40..ab103ad 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -341,7 +341,7 @@ class DefaultLossModule(BaseComponent):
             norm_pulses = self.log_faculty(pulse_charges)
             norm_doms = self.log_faculty(dom_charges_true)
             if sort_loss_terms:
-                loss_terms[2] = norm_doms
+                loss_terms[2] += norm_doms
                 loss_terms[2] = tf.tensor_scatter_nd_add(
                     loss_terms[2],
                     indices=data_batch_dict['x_pulses_ids'],
-- 
2.43.0


From 5c8e68259b8e0f2984c2e6ed91ee1396eae84747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 11/50] fix: add charge normalization to the terms of the DOMs
 in the pulse and DOM charge loss

---
 egenerator/loss/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index ab103ad..8acd7c1 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -578,7 +578,7 @@ class DefaultLossModule(BaseComponent):
         # curves more meaningful
         if self.configuration.config['config']['add_normalization_term']:
             norm_pulses = self.log_faculty(pulse_charges)
-            norm_doms = self.log_faculty(hits_true)
+            norm_doms = self.log_faculty(tf.squeeze(hits_true, axis=-1))
             if sort_loss_terms:
                 loss_terms[2] += norm_doms
                 loss_terms[2] = tf.tensor_scatter_nd_add(
-- 
2.43.0


From 86db64676b8163fe52df7c95cc081d37c191e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 12/50] fix: evaluate the snowstorm priors of the Fourier modes
 (index of the last mode, sorting, float64)

---
 egenerator/loss/snowstorm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/loss/snowstorm.py b/egenerator/loss/snowstorm.py
index 437799c..2ddad4a 100644
--- a/egenerator/loss/snowstorm.py
+++ b/egenerator/loss/snowstorm.py
@@ -253,7 +253,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if num_sigmas > 0:
             start_index = model.get_index('IceWavePlusModes_00')
             end_index = model.get_index('IceWavePlusModes_{:02d}'.format(
-                                                            num_sigmas)) + 1
+                                                        num_sigmas - 1)) + 1
             assert end_index - start_index == num_sigmas
             for i, exp_index in enumerate(range(start_index, end_index)):
                 index = model.get_index('IceWavePlusModes_{:02d}'.format(i))
@@ -262,7 +262,8 @@ class SnowstormPriorLossModule(BaseComponent):
             # shape: [batch, n_fourier]
             fourier_values = parameters[:, start_index:end_index]
 
-            fourier_sigmas = tf.expand_dims(self.sigmas, axis=0)
+            fourier_sigmas = tf.expand_dims(tf.constant(
+                self.sigmas, dtype=fourier_values.dtype), axis=0)
             fourier_log_pdf = basis_functions.tf_log_gauss(
                 fourier_values,
                 mu=tf.zeros_like(fourier_sigmas),
@@ -276,7 +277,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if sort_loss_terms:
             event_loss = None
             for loss_term in loss_terms:
-                if (loss_term.shape) > 1:
+                if len(loss_term.shape) > 1:
                     loss_term = tf.reduce_sum(loss_term, axis=1)
                 if event_loss is None:
                     event_loss = loss_term
-- 
2.43.0


From 6adf2d99702e3e41c0db09c00fa8fc7074713d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 13/50] fix: filter events of batches with tensors that do not
 exist

---
 egenerator/data/handler/modular.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/handler/modular.py b/egenerator/data/handler/modular.py
index e28ddba..068fdaf 100644
--- a/egenerator/data/handler/modular.py
+++ b/egenerator/data/handler/modular.py
@@ -454,10 +454,11 @@ class ModuleDataHandler(BaseDataHandler):
         for tensor_index, tensor in enumerate(self.tensors.list):
 
             # check if data exists
-            if event_batch[tensor_index] is None:
+            if event_batch[tensor_index] is None and \
+                    tensor.vector_info is None:
                 filtered_batch[tensor_index] = None
 
-            if tensor.vector_info is not None:
+            elif tensor.vector_info is not None:
                 if tensor.vector_info['type'] == 'value':
                     # we are collecting value tensors together with
                     # the indices tensors, so skip for now
-- 
2.43.0


From 7588156fd49dac699bde3cf4f83eefe54e418b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 14/50] fix: keep arrays when none of the events of a batch has
 any pulses

---
 egenerator/data/handler/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index ac650d0..535adee 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -553,12 +553,12 @@ class BaseDataHandler(BaseComponent):
             # make sure that the batch indices are correct
             assert np.all(indices[i][:, 0] == i)
 
-            values_list.extend(values[i])
-            indices_list.extend(indices[i])
+            values_list.append(values[i])
+            indices_list.append(indices[i])
 
         if len(values_list) > 0:
-            values_list = np.stack(values_list, axis=0)
-            indices_list = np.stack(indices_list, axis=0)
+            values_list = np.concatenate(values_list, axis=0)
+            indices_list = np.concatenate(indices_list, axis=0)
 
         return values_list, indices_list
 
-- 
2.43.0


From f1d7c21c787ff516440945ff35199c446140ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 15/50] fix: filter frames by the column of the constraint
 instead of its key

---
 egenerator/data/modules/filters/general_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index 80929d1..3ff7c72 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -184,10 +184,10 @@ class GeneralFilterModule(BaseComponent):
                 values = np.atleast_1d(frame[key][column])
             else:
                 value_table = frame[key]
-                if key in value_table:
-                    values = np.atleast_1d(value_table[key])
+                if column in value_table:
+                    values = np.atleast_1d(value_table[column])
                 else:
-                    values = np.atleast_1d(getattr(value_table, key))
+                    values = np.atleast_1d(getattr(value_table, column))
 
             if op == '>':
                 constraint_mask = values > threshold
-- 
2.43.0


From 294952cce36ed5735b056087388e9d6f3dddbb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 16/50] fix: read more than one seed from the same hdf file

---
 egenerator/data/modules/misc/seed_loader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 7bbfb13..ee1352f 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -147,8 +147,6 @@ class SeedLoaderMiscModule(BaseComponent):
             raise ValueError('Module not configured yet!')
 
         # open file
-        f = pd.HDFStore(file, 'r')
-
         seeds = []
         num_events_list = []
         missing_value = self.configuration.config['missing_value']
@@ -157,6 +155,7 @@ class SeedLoaderMiscModule(BaseComponent):
             seed_name = tensor.name
 
             seed_parameters = []
+            f = pd.HDFStore(file, 'r')
             try:
                 _labels = f[seed_name]
                 for l in self.configuration.config['seed_parameter_names']:
-- 
2.43.0


From 4e667edb36d90ff7d0c43f9d6fd9fb65d1d0b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 17/50] fix: replace missing values of the first seed parameter
 as well

---
 egenerator/data/modules/misc/seed_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index ee1352f..133758a 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -162,11 +162,11 @@ class SeedLoaderMiscModule(BaseComponent):
                     if l in _labels:
                         seed_parameters.append(_labels[l].values)
                     elif l in missing_value_dict:
-                        num_events = len(seed_parameters[-1])
+                        num_events = len(_labels)
                         seed_parameters.append(
                             [missing_value_dict[l]]*num_events)
                     elif missing_value is not None:
-                        num_events = len(seed_parameters[-1])
+                        num_events = len(_labels)
                         seed_parameters.append([missing_value]*num_events)
                     else:
                         raise KeyError('Could not find key {!r}'.format(l))
-- 
2.43.0


From b354e7d352513cb43d63f8063daf239d6019204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 18/50] fix: pass positional arguments on to the data modules

---
 egenerator/data/handler/modular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/handler/modular.py b/egenerator/data/handler/modular.py
index 068fdaf..3b4fad2 100644
--- a/egenerator/data/handler/modular.py
+++ b/egenerator/data/handler/modular.py
@@ -534,7 +534,7 @@ class ModuleDataHandler(BaseDataHandler):
             The input data (array-like) as specified in the
             DataTensorList (self.tensors).
         """
-        return self._get_data(file, method='get_from_hdf', *args, **kwargs)
+        return self._get_data(file, 'get_from_hdf', *args, **kwargs)
 
     def _get_data_from_frame(self, frame, *args, **kwargs):
         """Get data from I3Frame.
@@ -554,7 +554,7 @@ class ModuleDataHandler(BaseDataHandler):
             The input data (array-like) as specified in the
             DataTensorList (self.tensors).
         """
-        return self._get_data(frame, method='get_from_frame', *args, **kwargs)
+        return self._get_data(frame, 'get_from_frame', *args, **kwargs)
 
     def _create_data_from_frame(self, frame, *args, **kwargs):
         """Create data from I3Frame.
@@ -576,7 +576,7 @@ class ModuleDataHandler(BaseDataHandler):
         """
 
         return self._get_data(
-            frame, method='create_from_frame', *args, **kwargs)
+            frame, 'create_from_frame', *args, **kwargs)
 
     def _write_data_to_frame(self, data, frame, *args, **kwargs):
         """Write data to I3Frame.
-- 
2.43.0


From c33fa035cddac768769914ee298f5b51b6ebbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 19/50] fix: deliver all events and terminate after a single
 pass through the files

---
 egenerator/data/handler/base.py | 64 +++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 23 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 535adee..81fa8c4 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -708,6 +708,10 @@ class BaseDataHandler(BaseComponent):
         final_batch_queue = multiprocessing.Manager().Queue(
                                                     maxsize=batch_capacity)
 
+        if not pick_random_files_forever and number_of_files == 0:
+            # there is nothing to load
+            data_batch_queue.put(None)
+
         # keep references to managers alive, such that these do not shut
         # down until the BaseDataHandler object gets garbage collected
         self._untracked_data['mp_managers'].append(file_list_queue)
@@ -738,10 +742,10 @@ class BaseDataHandler(BaseComponent):
                     file = local_random_state.choice(file_list)
                 else:
                     with file_counter_lock:
-                        if not file_list_queue.empty():
-                            file = file_list_queue.get()
-                        else:
-                            file = None
+                        if file_list_queue.empty():
+                            # all files are taken: nothing left to load
+                            break
+                        file = file_list_queue.get()
 
                 if file and os.path.exists(file):
 
@@ -804,9 +808,15 @@ class BaseDataHandler(BaseComponent):
                 if not pick_random_files_forever:
                     with file_counter_lock:
                         num_files_processed.value += 1
-                        if num_files_processed.value == number_of_files:
+                        is_last = num_files_processed.value == number_of_files
+                        if is_last:
                             processed_all_files.value = True
 
+                    # mark the end of the data (not within the lock, since
+                    # this may have to wait for a free slot in the queue)
+                    if is_last:
+                        data_batch_queue.put(None)
+
         def fill_event_list(data_batch, event_list, exists, num_events):
             """Fills an event_list with a given data_batch.
             """
@@ -860,23 +870,24 @@ class BaseDataHandler(BaseComponent):
                 If True, a random event order will be sampled.
                 If False, events will not be shuffled.
             """
-            if not pick_random_files_forever:
-                with file_counter_lock:
-                    if processed_all_files.value and data_batch_queue.empty():
-                        data_left_in_queue.value = False
-
             # reset event batch
             size = 0
             batch = [[] for v in self.tensors.names]
 
             while data_left_in_queue.value:
+                # get a new set of events from queue
+                queue_item = data_batch_queue.get()
+                if queue_item is None:
+                    data_left_in_queue.value = False
+                    break
+                num_events, data_batch = queue_item
+
                 # create lists and concatenate at end
                 # (faster than concatenating in each step)
                 exists = [True for v in self.tensors.names]
                 event_list = [[] for v in self.tensors.names]
 
-                # get a new set of events from queue and fill
-                num_events, data_batch = data_batch_queue.get()
+                # fill lists
                 current_queue_size = num_events
                 fill_event_list(data_batch, event_list, exists, num_events)
 
@@ -890,7 +901,11 @@ class BaseDataHandler(BaseComponent):
 
                     if (data_batch_queue.qsize() > 1 or
                             not data_batch_queue.empty()):
-                        num_events, data_batch = data_batch_queue.get()
+                        queue_item = data_batch_queue.get()
+                        if queue_item is None:
+                            data_left_in_queue.value = False
+                            break
+                        num_events, data_batch = queue_item
                         n_files += 1
                         current_queue_size += num_events
                         fill_event_list(data_batch, event_list, exists,
@@ -970,26 +985,27 @@ class BaseDataHandler(BaseComponent):
                             size = 0
                             batch = [[] for v in self.tensors.names]
 
-                if not pick_random_files_forever:
-                    with file_counter_lock:
-                        if (processed_all_files.value and
-                                data_batch_queue.empty()):
-                            data_left_in_queue.value = False
-
             # collect leftovers and put them in an (incomplete) batch
             if size > 0:
                 # create numpy arrays from input tensors
                 for i, tensor in enumerate(self.tensors.list):
                     if exists[i]:
                         if tensor.vector_info is None:
-                            batch[i] = np.asarray(batch[i])
+                            batch[i] = np.asarray(
+                                batch[i], dtype=getattr(np, tensor.dtype))
 
                         else:
-                            batch[i] = np.concatenate(batch[i], axis=0)
+                            batch[i] = np.concatenate(
+                                batch[i], axis=0).astype(
+                                    getattr(np, tensor.dtype))
                     else:
-                        batch[i] = np.asarray(batch[i])
+                        batch[i] = np.asarray(
+                            batch[i], dtype=getattr(np, tensor.dtype))
                 final_batch_queue.put(tuple(batch))
 
+            # mark the end of the batches
+            final_batch_queue.put(None)
+
         def batch_iterator():
             """Create batch generator
 
@@ -1000,8 +1016,10 @@ class BaseDataHandler(BaseComponent):
                 dom_responses: [batch_size, x_dim, y_dim, z_dim, num_bins]
                 cascade_parameters: [batch_size, num_cascade_parameters]
             """
-            while data_left_in_queue.value or not final_batch_queue.empty():
+            while True:
                 batch = final_batch_queue.get()
+                if batch is None:
+                    break
                 yield batch
 
         # create processes
-- 
2.43.0


From 798362fbb6dac958f84f7550853362f4fd946917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 20/50] fix: create batches with tensors of type bool with
 NumPy >= 1.24

---
 egenerator/data/handler/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 81fa8c4..69d5099 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -957,16 +957,16 @@ class BaseDataHandler(BaseComponent):
                                     if tensor.vector_info is None:
                                         batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=tensor.dtype)
 
                                     else:
                                         batch[i] = np.concatenate(
                                                 batch[i], axis=0).astype(
-                                                    getattr(np, tensor.dtype))
+                                                    tensor.dtype)
                                 else:
                                     batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=tensor.dtype)
 
                             if verbose:
                                 usage = resource.getrusage(
@@ -992,15 +992,15 @@ class BaseDataHandler(BaseComponent):
                     if exists[i]:
                         if tensor.vector_info is None:
                             batch[i] = np.asarray(
-                                batch[i], dtype=getattr(np, tensor.dtype))
+                                batch[i], dtype=tensor.dtype)
 
                         else:
                             batch[i] = np.concatenate(
                                 batch[i], axis=0).astype(
-                                    getattr(np, tensor.dtype))
+                                    tensor.dtype)
                     else:
                         batch[i] = np.asarray(
-                            batch[i], dtype=getattr(np, tensor.dtype))
+                            batch[i], dtype=tensor.dtype)
                 final_batch_queue.put(tuple(batch))
 
             # mark the end of the batches
-- 
2.43.0


From 21f44897d7c44961df8904567735af14336034ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 21/50] fix: remove the undefined entries of skipped pulses

---
 egenerator/data/modules/data/pulse_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 603fab4..19bf78c 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -292,6 +292,7 @@ class PulseDataModule(BaseComponent):
         x_pulses = np.empty((num_pulses, pulse_dim),
                             dtype=self.data['np_float_precision'])
         x_pulses_ids = np.empty((num_pulses, 3), dtype=np.int32)
+        pulse_is_valid = np.ones(num_pulses, dtype=bool)
 
         # create array for time data
         x_time_window = np.empty(
@@ -308,6 +309,7 @@ class PulseDataModule(BaseComponent):
             if dom > 60:
                 self._logger.warning(
                     'skipping pulse: {} {}'.format(string, dom))
+                pulse_is_valid[pulse_index] = False
                 continue
             index = event_dict[(row[1:5])]
 
@@ -335,6 +337,10 @@ class PulseDataModule(BaseComponent):
             if row[10] < x_time_window[index, 0]:
                 x_time_window[index, 0] = row[10]
 
+        # remove entries of skipped pulses
+        x_pulses = x_pulses[pulse_is_valid]
+        x_pulses_ids = x_pulses_ids[pulse_is_valid]
+
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
 
-- 
2.43.0


From 42662fce6ff9a962f221a60eec63ec2001503e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 22/50] fix: remove the undefined entries of skipped time
 exclusions

---
 egenerator/data/modules/data/pulse_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 19bf78c..49f3d78 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -361,12 +361,14 @@ class PulseDataModule(BaseComponent):
         # get time exclusions
         # -------------------
         if time_exclusions is not None:
+            tw_is_valid = np.ones(num_tws, dtype=bool)
             for tw_index, row in enumerate(time_exclusions.itertuples()):
                 string = row[6]
                 dom = row[7]
                 if dom > 60:
                     self._logger.warning(
                         'skipping tw: {} {}'.format(string, dom))
+                    tw_is_valid[tw_index] = False
                     continue
                 index = event_dict[(row[1:5])]
 
@@ -378,6 +380,10 @@ class PulseDataModule(BaseComponent):
                 # gather pulse ids (batch index, string, dom)
                 x_time_exclusions_ids[tw_index] = [index, string-1, dom-1]
 
+            # remove entries of skipped time windows
+            x_time_exclusions = x_time_exclusions[tw_is_valid]
+            x_time_exclusions_ids = x_time_exclusions_ids[tw_is_valid]
+
         # ------------------
         # get dom exclusions
         # ------------------
-- 
2.43.0


From 562ff38b430bf49aea445757435e779d18c41e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 23/50] fix: accept files and frames without the configured
 time exclusions

---
 egenerator/data/modules/data/pulse_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 49f3d78..6bb0a85 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -273,7 +273,10 @@ class PulseDataModule(BaseComponent):
             x_dom_exclusions = None
 
         if self.data['time_exclusions_exist']:
-            num_tws = len(time_exclusions['Event'])
+            if time_exclusions is None:
+                num_tws = 0
+            else:
+                num_tws = len(time_exclusions['Event'])
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
@@ -602,6 +605,7 @@ class PulseDataModule(BaseComponent):
                     # gather pulse ids (batch index, string, dom)
                     x_time_exclusions_ids.append([index, string-1, dom-1])
 
+        if self.data['time_exclusions_exist']:
             if x_time_exclusions:
                 x_time_exclusions = np.array(
                     x_time_exclusions, dtype=self.data['np_float_precision'])
-- 
2.43.0


From 0d9bdf0321caa74ca571bc466ffedc8c5023f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 24/50] fix: accept frames without pulses

---
 egenerator/data/modules/data/pulse_data.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 6bb0a85..37c4a0c 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -520,6 +520,10 @@ class PulseDataModule(BaseComponent):
         add_charge_quantiles = \
             self.configuration.config['add_charge_quantiles']
 
+        if add_charge_quantiles:
+            pulse_dim = 3
+        else:
+            pulse_dim = 2
         x_pulses = []
         x_pulses_ids = []
 
@@ -563,8 +567,10 @@ class PulseDataModule(BaseComponent):
                 if pulse.time < x_time_window[index, 0]:
                     x_time_window[index, 0] = pulse.time
 
-        x_pulses = np.array(x_pulses, dtype=self.data['np_float_precision'])
-        x_pulses_ids = np.array(x_pulses_ids, dtype=np.int32)
+        x_pulses = np.reshape(np.array(
+            x_pulses, dtype=self.data['np_float_precision']), [-1, pulse_dim])
+        x_pulses_ids = np.reshape(
+            np.array(x_pulses_ids, dtype=np.int32), [-1, 3])
 
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
-- 
2.43.0


From 6b337888f29b566ec44687df9a9c56164ff5a377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 25/50] fix: apply a single trafo_log to additional labels as
 well

---
 .../data/modules/labels/snowstorm_cascades.py      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/egenerator/data/modules/labels/snowstorm_cascades.py b/egenerator/data/modules/labels/snowstorm_cascades.py
index f128f08..7882ef6 100644
--- a/egenerator/data/modules/labels/snowstorm_cascades.py
+++ b/egenerator/data/modules/labels/snowstorm_cascades.py
@@ -111,13 +111,6 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
             raise TypeError('{!r} is not a boolean value!'.format(
                 shift_cascade_vertex))
 
-        # extend trafo log for snowstorm parameters: fill with Flase
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * 7
-        else:
-            trafo_log_ext = list(trafo_log)
-        trafo_log_ext.extend([False]*num_snowstorm_params)
-
         # create a list of label names to load
         if additional_labels is None:
             additional_labels = []
@@ -126,6 +119,13 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
             'cascade_azimuth', 'cascade_energy', 'cascade_t',
         ] + additional_labels
 
+        # extend trafo log for snowstorm parameters: fill with Flase
+        if isinstance(trafo_log, bool):
+            trafo_log_ext = [trafo_log] * len(label_names)
+        else:
+            trafo_log_ext = list(trafo_log)
+        trafo_log_ext.extend([False]*num_snowstorm_params)
+
         data = {'label_names': label_names}
         data['label_tensors'] = DataTensorList([DataTensor(
             name='x_parameters',
-- 
2.43.0


From 60448f1871ab52481df989810e7487d362ca8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 26/50] fix: accept None for trafo_log of the snowstorm labels

---
 egenerator/data/modules/labels/snowstorm_cascades.py      | 4 ++--
 egenerator/data/modules/labels/snowstorm_track_segment.py | 4 ++--
 egenerator/data/modules/labels/snowstorm_tracks.py        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/egenerator/data/modules/labels/snowstorm_cascades.py b/egenerator/data/modules/labels/snowstorm_cascades.py
index 7882ef6..1f188ec 100644
--- a/egenerator/data/modules/labels/snowstorm_cascades.py
+++ b/egenerator/data/modules/labels/snowstorm_cascades.py
@@ -120,8 +120,8 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
         ] + additional_labels
 
         # extend trafo log for snowstorm parameters: fill with Flase
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * len(label_names)
+        if trafo_log is None or isinstance(trafo_log, bool):
+            trafo_log_ext = [bool(trafo_log)] * len(label_names)
         else:
             trafo_log_ext = list(trafo_log)
         trafo_log_ext.extend([False]*num_snowstorm_params)
diff --git a/egenerator/data/modules/labels/snowstorm_track_segment.py b/egenerator/data/modules/labels/snowstorm_track_segment.py
index 1b8b6be..5c21057 100644
--- a/egenerator/data/modules/labels/snowstorm_track_segment.py
+++ b/egenerator/data/modules/labels/snowstorm_track_segment.py
@@ -108,8 +108,8 @@ class SnowstormTrackSegmentGeneratorLabelModule(BaseComponent):
         # define number of parameters
         num_params = 9
 
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * num_params
+        if trafo_log is None or isinstance(trafo_log, bool):
+            trafo_log_ext = [bool(trafo_log)] * num_params
         else:
             trafo_log_ext = list(trafo_log)
         trafo_log_ext.extend([False]*num_snowstorm_params)
diff --git a/egenerator/data/modules/labels/snowstorm_tracks.py b/egenerator/data/modules/labels/snowstorm_tracks.py
index f482079..801c10f 100644
--- a/egenerator/data/modules/labels/snowstorm_tracks.py
+++ b/egenerator/data/modules/labels/snowstorm_tracks.py
@@ -149,8 +149,8 @@ class SnowstormTrackGeneratorLabelModule(BaseComponent):
             parameter_dict[parameter_name] = i
 
         # extend trafo log for snowstorm parameters: fill with Flase
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * num_params
+        if trafo_log is None or isinstance(trafo_log, bool):
+            trafo_log_ext = [bool(trafo_log)] * num_params
         else:
             trafo_log_ext = list(trafo_log)
         trafo_log_ext.extend([False]*num_snowstorm_params)
-- 
2.43.0


From 353828dfaf54a988e78e988cd84a3ac29c22b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 27/50] fix: filter frames by attributes of objects that are
 not containers

---
 egenerator/data/modules/filters/general_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index 3ff7c72..7568d71 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -184,7 +184,8 @@ class GeneralFilterModule(BaseComponent):
                 values = np.atleast_1d(frame[key][column])
             else:
                 value_table = frame[key]
-                if column in value_table:
+                if (hasattr(value_table, '__contains__')
+                        and column in value_table):
                     values = np.atleast_1d(value_table[column])
                 else:
                     values = np.atleast_1d(getattr(value_table, column))
-- 
2.43.0


From facdabad02c227a1ac229120d735834bfb93fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:19 +0000
Subject: [PATCH 28/50] fix: accept further arguments when reading seeds from
 hdf files

---
 egenerator/data/modules/misc/seed_loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 133758a..fd2d6a4 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -126,13 +126,17 @@ class SeedLoaderMiscModule(BaseComponent):
             )
         return configuration, data, {}
 
-    def get_data_from_hdf(self, file):
+    def get_data_from_hdf(self, file, *args, **kwargs):
         """Get misc data from hdf file.
 
         Parameters
         ----------
         file : str
             The path to the hdf file.
+        *args
+            Variable length argument list.
+        **kwargs
+            Arbitrary keyword arguments.
 
         Returns
         -------
-- 
2.43.0


From 3a6c172f4f467e365b0d3ca93eb41e645283f0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 29/50] fix: load components that were saved with another
 version

---
 egenerator/manager/component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 367b8c8..6c469ca 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -184,7 +184,7 @@ class Configuration(object):
 
         self._logger = logger or logging.getLogger(__name__)
         self._dict = {
-            'event_generator_version': egenerator.__version__,
+            'event_generator_version': event_generator_version,
             'event_generator_git_sha': event_generator_git_sha,
             'event_generator_origin': event_generator_origin,
             'event_generator_uncommitted_changes':
@@ -918,7 +918,9 @@ class BaseComponent(object):
             msg = 'Event-Generator versions do not match. '
             msg += 'Saved component was created with version {!r}, but this is'
             msg += ' version {!r}.'
-            self.logger.warning(msg.format())
+            self._logger.warning(msg.format(
+                config_dict['event_generator_version'],
+                egenerator.__version__))
 
         # check if this is the correct class
         if self.configuration.class_string != \
-- 
2.43.0


From bab9ebac16422185dbee23f0f326eeac689c7698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 30/50] fix: keep mutable settings and config consistent if an
 update is refused

---
 egenerator/manager/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 6c469ca..f347786 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -215,11 +215,11 @@ class Configuration(object):
             The dictionary with the key-value pairs of the mutable settings
             that should be updated.
         """
-        for key, value in new_settings.items():
+        for key in new_settings:
             if key not in self._dict['mutable_settings']:
                 raise KeyError('Mutable setting: {!r} does not exist'.format(
                     key))
-            self._dict['mutable_settings'][key] = value
+        self._dict['mutable_settings'].update(deepcopy(dict(new_settings)))
 
         # update config
         self._config = self._combine_settings()
-- 
2.43.0


From 402affcb9c69a089336b47415bc2252065b1afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 31/50] fix: do not empty the dictionary of modified sub
 components of the caller

---
 egenerator/manager/component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index f347786..5ca5572 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -898,6 +898,10 @@ class BaseComponent(object):
         # This indicates an incorrect usage of the BaseComponent class.
         self._check_member_attributes()
 
+        # components are removed from this dictionary once they are used:
+        # leave the dictionary of the caller as it is
+        modified_sub_components = dict(modified_sub_components)
+
         # split of possible extension
         dir_path = os.path.splitext(dir_path)[0]
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
-- 
2.43.0


From 9efe2ea5d307f76025fccd4959527d0109c27f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 32/50] fix: do not remove checkpoints of other models if the
 path has brackets

---
 egenerator/model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index e2f5aa1..8a1e355 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -365,7 +365,7 @@ class Model(tf.Module, BaseComponent):
                     info = meta_data['unprotected_checkpoints'].pop(number)
 
                     # remove files
-                    pattern = os.path.join(dir_path,
+                    pattern = os.path.join(glob.escape(dir_path),
                                            info['file_basename'] + '.*')
                     files_to_remove = glob.glob(pattern)
                     msg = 'Removing old checkpoint files: {!r}'
-- 
2.43.0


From 3122caa6daeefaddb0fa80114822c46e7c1da1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:41 +0000
Subject: [PATCH 33/50] fix: keep the checkpoint meta data valid if saving is
 interrupted

---
 egenerator/model/base.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index 8a1e355..61d8c06 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -354,7 +354,8 @@ class Model(tf.Module, BaseComponent):
         # save checkpoint
         self._untracked_data['checkpoint'].write(checkpoint_file)
 
-        # remove old checkpoints
+        # collect old checkpoints which need to be removed
+        outdated_checkpoints = []
         if not protected:
             old_checkpoint_numbers = \
                 sorted(meta_data['unprotected_checkpoints'].keys())
@@ -362,20 +363,25 @@ class Model(tf.Module, BaseComponent):
                 for number in old_checkpoint_numbers[:-max_keep]:
 
                     # remove entry from tracked checkpoints meta data
-                    info = meta_data['unprotected_checkpoints'].pop(number)
-
-                    # remove files
-                    pattern = os.path.join(glob.escape(dir_path),
-                                           info['file_basename'] + '.*')
-                    files_to_remove = glob.glob(pattern)
-                    msg = 'Removing old checkpoint files: {!r}'
-                    self._logger.info(msg.format(files_to_remove))
-                    for file in files_to_remove:
-                        os.remove(file)
+                    outdated_checkpoints.append(
+                        meta_data['unprotected_checkpoints'].pop(number))
 
-        # save new meta data
-        with open(yaml_file, 'w') as stream:
+        # save new meta data: replace the file at once and before any of the
+        # old checkpoints are removed, such that there is always a valid file
+        # that points to existing checkpoints
+        with open(yaml_file + '.tmp', 'w') as stream:
             yaml.dump(meta_data, stream)
+        os.replace(yaml_file + '.tmp', yaml_file)
+
+        # remove old checkpoints
+        for info in outdated_checkpoints:
+            pattern = os.path.join(glob.escape(dir_path),
+                                   info['file_basename'] + '.*')
+            files_to_remove = glob.glob(pattern)
+            msg = 'Removing old checkpoint files: {!r}'
+            self._logger.info(msg.format(files_to_remove))
+            for file in files_to_remove:
+                os.remove(file)
 
     def update_num_training_steps(self, dir_path, num_training_steps):
         """Update the number of training iterations for current training step.
-- 
2.43.0


From 0541256d61219b05cf0068490b09360088a63ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 34/50] fix: scale regularization losses with the configured
 factors

---
 egenerator/manager/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 9807c80..7794dd6 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -448,10 +448,12 @@ class BaseModelManager(Model):
 
         # apply regularization
         if opt_config['l1_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(tf.abs(v)) for v in variables])
+            reg_loss += opt_config['l1_regularization'] * tf.add_n(
+                [tf.reduce_sum(tf.abs(v)) for v in variables])
 
         if opt_config['l2_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(v**2) for v in variables])
+            reg_loss += opt_config['l2_regularization'] * tf.add_n(
+                [tf.reduce_sum(v**2) for v in variables])
 
         return reg_loss
 
-- 
2.43.0


From 624337c12bc1b1c2749928885769adec497ee0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 35/50] fix: removal of NaN gradients and variables without a
 gradient

---
 egenerator/manager/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 7794dd6..5c8f160 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -582,8 +582,10 @@ class BaseModelManager(Model):
         else:
             remove_nan_gradients = False
         if remove_nan_gradients:
-            gradients = [tf.where(tf.is_nan(grad), tf.zeros_like(grad), grad)
-                         for grad in gradients if grad is not None]
+            gradients = [None if grad is None else
+                         tf.where(tf.math.is_nan(grad),
+                                  tf.zeros_like(grad), grad)
+                         for grad in gradients]
 
         if 'clip_gradients_value' in opt_config:
             clip_gradients_value = opt_config['clip_gradients_value']
@@ -598,6 +600,8 @@ class BaseModelManager(Model):
         # Ensure finite values
         asserts = []
         for gradient in capped_gradients:
+            if gradient is None:
+                continue
             assert_finite = tf.Assert(
                 tf.math.is_finite(tf.reduce_mean(gradient)),
                 [tf.reduce_min(gradient),
-- 
2.43.0


From d210abd3a090055c7e277ad75db522940654fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 36/50] fix: evaluate on validation batches

---
 egenerator/manager/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 5c8f160..d66b7c7 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -834,7 +834,7 @@ class BaseModelManager(Model):
                 if evaluation_module is not None:
 
                     # get new batch of validation data
-                    val_data_batch = next(train_dataset)
+                    val_data_batch = next(validation_dataset)
 
                     evaluation_module.evaluate(
                         data_batch=val_data_batch,
-- 
2.43.0


From 62c2254786be62f2f63b98800e9d2901203a775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 37/50] fix: count the last training step in the meta data

---
 egenerator/manager/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index d66b7c7..752fe16 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -851,7 +851,7 @@ class BaseModelManager(Model):
             # ----------
             if step % opt_config['save_frequency'] == 0 and step != 0:
                 self.save_weights(dir_path=save_dir,
-                                  num_training_steps=step)
+                                  num_training_steps=step + 1)
 
             # -----------------------
             # Profile steps 90 to 100
@@ -866,6 +866,6 @@ class BaseModelManager(Model):
 
         # save model
         self.save_weights(dir_path=save_dir,
-                          num_training_steps=step,
+                          num_training_steps=step + 1,
                           description='End of training step',
                           protected=True)
-- 
2.43.0


From 579c4e3165910367b4959e80a563ccdabb7b522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 38/50] fix: define data type of the parameters in the
 simulation module

---
 egenerator/ic3/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 0ebde6b..684c633 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -168,6 +168,8 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
         #     return result_tensors
         # ---- TO DELETE [END] -----------------
         self.get_model_tensors = self.manager.get_model_tensors_function()
+        self.param_dtype = getattr(
+            tf, self.manager.data_trafo.data['tensors']['x_parameters'].dtype)
 
         # ---------------------------------------------------
         # Define which particles are simulated by which Model
-- 
2.43.0


From d55075acac8fabd3bfaf70472de4881e7836d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 39/50] fix: default values from the frame in the simulation
 module

---
 egenerator/ic3/simulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 684c633..02bcdba 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -234,7 +234,7 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
             raise NotImplementedError('Tracks not yet supported')
 
         # convert cascade to source hypotheses
-        cascade_sources = self.convert_cascades_to_tensor(cascades)
+        cascade_sources = self.convert_cascades_to_tensor(cascades, frame)
 
         # timer after source collection
         t_1 = timeit.default_timer()
@@ -375,13 +375,16 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
 
         return pulse_series_map
 
-    def convert_cascades_to_tensor(self, cascades):
+    def convert_cascades_to_tensor(self, cascades, frame=None):
         """Convert a list of cascades to a source parameter tensor.
 
         Parameters
         ----------
         cascades : list of I3Particles
             The list of cascade I3Particles.
+        frame : I3Frame, optional
+            The current frame. Only needed if default values are to be
+            obtained from the frame.
 
         Returns
         -------
-- 
2.43.0


From c178184bf42bc9f5d2070d899ba02ea7b2378f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 40/50] fix: charges of sampled events in goodness of fit

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index b509119..aec163c 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -116,6 +116,8 @@ class GoodnessOfFit:
             'x_dom_charge')
 
         # get indices of parameters
+        self.dom_charge_dtype = self.manager.data_handler.tensors[
+            'x_dom_charge'].dtype
         self.param_time_index = self.manager.models[0].get_index('time')
 
         # parameter input signature
@@ -321,6 +323,8 @@ class GoodnessOfFit:
             data_batch_new = [t for t in data_batch]
             data_batch_new[self.x_pulses_index] = x_pulses
             data_batch_new[self.x_pulses_ids_index] = x_pulses_ids
+            data_batch_new[self.x_dom_charge_index] = np.expand_dims(
+                dom_charges[event_id], axis=0).astype(self.dom_charge_dtype)
             data_batch_new = tuple(data_batch_new)
             tf_seed_tensor = tf.convert_to_tensor(
                 np.expand_dims(sampled_hypotheses[event_id], axis=0),
-- 
2.43.0


From b7f71750a1a73c142dfb7783a21f826cb844fa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 41/50] fix: sampled events without pulses in goodness of fit

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index aec163c..f84fae0 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -634,6 +634,11 @@ class GoodnessOfFit:
                 x_pulses.append(pulses)
                 x_pulses_ids.append(pulses_ids)
 
+        if len(x_pulses) == 0:
+            # the sampled event does not have any pulses
+            return (np.empty((0, 3 if add_charge_quantiles else 2)),
+                    np.empty((0, 3), dtype=int))
+
         x_pulses = np.concatenate(x_pulses)
         x_pulses_ids = np.concatenate(x_pulses_ids)
 
-- 
2.43.0


From 59770742454a6f2c8742edc2760213a746c94048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 42/50] fix: goodness of fit if some parameters are not fitted

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index f84fae0..6d63d7b 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -286,7 +286,8 @@ class GoodnessOfFit:
         # ---------------------------------
 
         # create empty arrays to store results
-        sample_recos_trafo = np.empty_like(sampled_hypotheses)
+        fit_indices = np.flatnonzero(self.fit_paramater_list)
+        sample_recos_trafo = np.empty([self.num_samples, len(fit_indices)])
         sample_event_llh = np.empty(self.num_samples)
         if self.add_per_dom_calculation:
             sample_dom_llh = np.empty([self.num_samples, 86, 60])
@@ -345,6 +346,7 @@ class GoodnessOfFit:
                         tensor_name=self.parameter_tensor_name)
                 else:
                     sample_result_trafo = tf_seed_tensor.numpy()
+                sample_result_trafo = sample_result_trafo[:, fit_indices]
 
             assert len(sample_result_trafo) == 1
             sample_recos_trafo[event_id] = sample_result_trafo[0]
-- 
2.43.0


From fb43b82caf8f3989ed80399039deb0b4b50cc2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 43/50] fix: sign of the circularized angular uncertainty

---
 egenerator/manager/reconstruction/modules/opening_angle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/opening_angle.py b/egenerator/manager/reconstruction/modules/opening_angle.py
index bef93ff..689a174 100644
--- a/egenerator/manager/reconstruction/modules/opening_angle.py
+++ b/egenerator/manager/reconstruction/modules/opening_angle.py
@@ -353,4 +353,7 @@ class CircularizedAngularUncertainty:
 
         result_wilks = optimize.minimize(
             loss_cdf, x0=x0, args=(delta_psi, cdf_values))
-        return result_wilks.x[0]
+
+        # the Rayleigh CDF is symmetric in sigma: the minimizer may converge
+        # to the equivalent minimum at negative values
+        return np.abs(result_wilks.x[0])
-- 
2.43.0


From 364bb9655c20feba65efc98c3ee7a601827e0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 44/50] fix: deserialize tensors with specifications named type
 or specs

---
 egenerator/data/tensor.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/egenerator/data/tensor.py b/egenerator/data/tensor.py
index ca95e1f..26b1b09 100644
--- a/egenerator/data/tensor.py
+++ b/egenerator/data/tensor.py
@@ -302,15 +302,12 @@ class DataTensorList(object):
         for serialized_tensor in serialized_tensor_list:
 
             # rename type to tensor_type and expand specs
-            serialized_tensor['tensor_type'] = serialized_tensor['type']
-            for key, value in serialized_tensor['specs'].items():
-                serialized_tensor[key] = value
-
-            del serialized_tensor['type']
-            del serialized_tensor['specs']
+            tensor_type = serialized_tensor.pop('type')
+            specs = serialized_tensor.pop('specs')
 
             # create data tensor object
-            tensors.append(DataTensor(**serialized_tensor))
+            tensors.append(DataTensor(
+                tensor_type=tensor_type, **serialized_tensor, **specs))
 
         return DataTensorList(tensors)
 
-- 
2.43.0


From e256a6604c97e9c99f4607ccb20d0f5f716783a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 45/50] fix: start Markov chains at the best fit in the
 transformed space

---
 egenerator/manager/reconstruction/modules/mcmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/mcmc.py b/egenerator/manager/reconstruction/modules/mcmc.py
index 56161bd..33b038e 100644
--- a/egenerator/manager/reconstruction/modules/mcmc.py
+++ b/egenerator/manager/reconstruction/modules/mcmc.py
@@ -142,6 +142,11 @@ class MarkovChainMonteCarlo:
         result_inv = results[self.reco_key]['result']
 
         assert len(result_inv) == 1
+
+        # the chains run in the transformed space
+        if self.minimize_in_trafo_space:
+            result_inv = self.manager.data_trafo.transform(
+                data=result_inv, tensor_name=self.parameter_tensor_name)
         result_inv = result_inv[0]
 
         # # 0, 1, 2,      3,       4,      5,    6
-- 
2.43.0


From 632d9ba9148cfeb50d9b0b310c6012ebe03c5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 46/50] fix: name the differing keys if transformations of an
 ensemble differ

---
 egenerator/manager/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 752fe16..0e7024b 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -173,7 +173,8 @@ class BaseModelManager(Model):
             if set(data_trafo.data.keys()) != set(data_trafo_i.data.keys()):
                 msg = 'Data Trafo keys of model {:04d} do not match: {} != {}'
                 raise ValueError(msg.format(
-                    i, set(data_trafo_i.keys()), set(data_trafo.keys())))
+                    i, set(data_trafo_i.data.keys()),
+                    set(data_trafo.data.keys())))
 
             for key in data_trafo.data.keys():
                 if np.any(data_trafo.data[key] != data_trafo_i.data[key]):
-- 
2.43.0


From f09bc3d844e6421fe47735589c3895c0ec6628db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 47/50] fix: settings of a global fit must not leak into the
 next one

---
 egenerator/manager/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 7f8ba35..f244791 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -908,8 +908,9 @@ class SourceManager(BaseModelManager):
             raise ValueError(msg.format(param_tensor.shape[1],
                                         len(fit_paramater_list)))
 
-        minimizer_kwargs['jac'] = jac
-        options['jac'] = jac
+        # do not modify the settings of the caller (or the default settings)
+        minimizer_kwargs = dict(minimizer_kwargs, jac=jac)
+        options = dict(options, jac=jac)
 
         # define helper function
         def func(x, data_batch, seed):
-- 
2.43.0


From 92876fbaf9821993db53cf653657163aeff93267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 48/50] fix: global fits of a subset of the parameters

---
 egenerator/manager/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index f244791..6c56714 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -954,6 +954,7 @@ class SourceManager(BaseModelManager):
         # ToDo: allow to pass proper boundaries and uncertainties
         assert minimize_in_trafo_space, 'currently only for trafo space'
         bounds = np.concatenate((seed_array_trafo - 1, seed_array_trafo + 1)).T
+        bounds = bounds[np.asarray(fit_paramater_list, dtype=bool)]
 
         def callback(xk):
             print(xk)
-- 
2.43.0


From e9de323671f224b9f6b1d80458261f223fd574cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 49/50] fix: reconstruct test data with random seeds and a
 single seed name

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 6c56714..e1ad1ef 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1574,7 +1574,7 @@ class SourceManager(BaseModelManager):
             # get seed from reconstruction result
             if results['reco']['seed_from_previous_module']:
                 seed_index = self.data_handler.tensors.get_index(
-                    reco_config['seed'][0]) #------------------------------- HACK WRONG!
+                    seed_tensor_names[0]) #------------------------------- HACK WRONG!
                 # raise NotImplementedError
             else:
                 seed_index = self.data_handler.tensors.get_index(
-- 
2.43.0


From 9e4d99ea8e2d03cf7b06c815fd47e55ff0768b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 50/50] fix: run Markov chains on test data

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index e1ad1ef..fca8fe6 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1708,7 +1708,7 @@ class SourceManager(BaseModelManager):
                         max_val_50 = max(central_50p[:, i])
 
                         msg = '\t{:8.2f}: {:8.2f} {:8.2f} {:8.2f} {:8.2f} [{}]'
-                        print(msg.format(cascade_true[i], min_val_90,
+                        print(msg.format(cascade_true_batch[0][i], min_val_90,
                                          min_val_50, max_val_50, max_val_90,
                                          name))
             # -------------
-- 
2.43.0

