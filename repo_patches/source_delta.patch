From 4a14b8a6c29bfadf638bbca80956a66ac7db9965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:47 +0000
Subject: [PATCH 01/18] fix: treat single-column 2-D intercept and shape arrays
 like multi-column ones

---
 src/pylogit/asym_logit.py   | 4 ++--
 src/pylogit/clog_log.py     | 2 +-
 src/pylogit/scobit.py       | 2 +-
 src/pylogit/uneven_logit.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 301dc9a..e0da3d5 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -160,7 +160,7 @@ def _convert_eta_to_c(eta, ref_position):
     replace_list.remove(ref_position)
 
     # Initialize an array for the vector of shape parameters, c
-    if len(eta.shape) > 1 and eta.shape[1] > 1:
+    if len(eta.shape) > 1:
         # Get an array of zeros with shape
         # (num_possible_alternatives, num_parameter_samples). This is used when
         # working with samples from a Bayesian posterior distribution
@@ -318,7 +318,7 @@ def _asym_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 59ac3d0..f89fdaf 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -183,7 +183,7 @@ def _cloglog_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 13256f8..9a5ba0f 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -157,7 +157,7 @@ def _scobit_utility_transform(systematic_utilities,
         needed_idxs = range(intercept_params.shape[0] + 1)
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 701e722..57ad1ca 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -213,7 +213,7 @@ def _uneven_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
-- 
2.43.0


From a1c0382839d89320fc24fe53c0940401d51c2246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:58 +0000
Subject: [PATCH 02/18] fix: scobit utilities of several parameter vectors
 without outside intercepts

---
 src/pylogit/scobit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 9a5ba0f..c2d84d2 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -179,6 +179,9 @@ def _scobit_utility_transform(systematic_utilities,
     # Figure out what intercept values correspond to each row of the
     # systematic utilities
     long_intercepts = rows_to_alts.dot(all_intercepts)
+    # Allow the intercepts to be broadcast over 2D systematic utilities
+    if len(systematic_utilities.shape) > len(long_intercepts.shape):
+        long_intercepts = long_intercepts[:, None]
 
     # Convert the shape parameters back into their 'natural parametrization'
     natural_shapes = np.exp(shape_params)
-- 
2.43.0


From 4ff66e9cd2fbcceba94508358d58815090948b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:58 +0000
Subject: [PATCH 03/18] fix: nested logit gradient and BHHH when a nest is
 unavailable to an observation

---
 src/pylogit/nested_choice_calcs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index c949a38..d9c4fe0 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -593,8 +593,9 @@ def calc_nested_gradient(orig_nest_coefs,
     ##########
     # Calculate the term that onlny depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # An observation without any available alternative in a nest has a sum of
+    # zero for that nest. Such nests do not affect the log-likelihood.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters
@@ -770,8 +771,9 @@ def calc_bhhh_hessian_approximation(orig_nest_coefs,
     ##########
     # Calculate the term that only depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # An observation without any available alternative in a nest has a sum of
+    # zero for that nest. Such nests do not affect the log-likelihood.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters. Note we do not sum this object since
-- 
2.43.0


From 84183b2c5fc2a30eab8a587b04683abcfcd9f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:58 +0000
Subject: [PATCH 04/18] fix: nested logit probabilities above one when exp(V /
 nest coef) is denormal

---
 src/pylogit/nested_choice_calcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index d9c4fe0..fd79aa5 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -144,7 +144,7 @@ def calc_nested_probs(nest_coefs,
     # probability. However, replacing underflowed values here may result in
     # incorrectly assigning probabilities of either zero for all alternatives
     # or 1 / num_alternatives for all alternatives.
-    zero_idx = (exp_scaled_index == 0)
+    zero_idx = (exp_scaled_index < min_comp_value)
     exp_scaled_index[zero_idx] = min_comp_value
 
     # Calculate the log-sum for each nest, for each observation. Note that the
-- 
2.43.0


From 8ca8f0d8fda02d29950904ec0351448e4289221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:15 +0000
Subject: [PATCH 05/18] fix: keep the draws axis of simulated probabilities
 when there is a single draw

---
 src/pylogit/choice_calcs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 5e24be5..1d78d3b 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -156,7 +156,10 @@ def calc_probabilities(beta,
     individual_denominators = np.asarray(rows_to_obs.transpose().dot(
                                                     long_exponentials))
     long_denominators = np.asarray(rows_to_obs.dot(individual_denominators))
-    if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+    # Only return 2D probabilities when there are multiple sets of parameters or
+    # multiple draws of the design matrix (even if it is only a set of one).
+    multiple_sets = len(sys_utilities.shape) > 1
+    if multiple_sets:
         long_probs = (long_exponentials / long_denominators)
     else:
         long_probs = (long_exponentials / long_denominators).ravel()
@@ -170,7 +173,7 @@ def calc_probabilities(beta,
         # chosen_probs will be of shape (num_observations,)
         chosen_exponentials = np.asarray(
                          chosen_row_to_obs.transpose().dot(long_exponentials))
-        if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+        if multiple_sets:
             chosen_probs = chosen_exponentials / individual_denominators
         else:
             chosen_probs = (chosen_exponentials /
-- 
2.43.0


From 596164a29342e1d6e81288221567e84f862167ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 06/18] fix: mixing over integer design matrices

---
 src/pylogit/mixed_logit_calcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit_calcs.py b/src/pylogit/mixed_logit_calcs.py
index 1973eba..d798bbf 100755
--- a/src/pylogit/mixed_logit_calcs.py
+++ b/src/pylogit/mixed_logit_calcs.py
@@ -150,8 +150,9 @@ def create_expanded_design_for_mixing(design,
     # Initialize the expanded design matrix that replicates the columns of the
     # variables that are being mixed over.
     arrays_for_mixing = design[:, mixing_pos]
+    # Note that integer designs are converted so they can hold the draws.
     expanded_design = np.concatenate((design, arrays_for_mixing),
-                                     axis=1).copy()
+                                     axis=1).astype(float)
     design_3d = np.repeat(expanded_design[:, None, :],
                           repeats=num_draws,
                           axis=1)
-- 
2.43.0


From 61d3d4a54ac6fa4c0d97de5c754512f64f813fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 07/18] fix: align availability columns with sorted alternative
 ids in convert_wide_to_long

---
 src/pylogit/choice_tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c9653d7..3766782 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1629,8 +1629,7 @@ def convert_wide_to_long(wide_data,
     # Create the observation id column,
     #####
     # Determine the various availability values for each observation
-    wide_availability_values = wide_data[list(
-        availability_vars.values())].values
+    wide_availability_values = wide_data[sorted_availability_cols].values
     new_obs_id_col = (wide_availability_values *
                       wide_data[obs_id_col].values[:, None]).ravel()
     # Make sure the observation id column has an integer data type
-- 
2.43.0


From c1cd5ff1357aaade8e9494d70c4f8c78a8f6c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 08/18] fix: match chosen alternatives to observation ids in
 convert_long_to_wide

---
 src/pylogit/choice_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 3766782..1a92554 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1142,8 +1142,10 @@ def convert_long_to_wide(long_data,
     #####
     # Create the choice column in the wide data format
     #####
-    new_df[choice_col] = long_data.loc[long_data[choice_col] == 1,
-                                       alt_id_col].values
+    chosen_alts = long_data.loc[long_data[choice_col] == 1,
+                                [obs_id_col, alt_id_col]
+                                ].set_index(obs_id_col)[alt_id_col]
+    new_df[choice_col] = chosen_alts.loc[new_df[obs_id_col].values].values
 
     #####
     # Create the availability columns
-- 
2.43.0


From 6ddfe3bb6cbaa7f799825cbee8a3fb18fe1be043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:35 +0000
Subject: [PATCH 09/18] fix: contiguity check for unsigned observation ids

---
 src/pylogit/choice_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 1a92554..d9b431e 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1453,7 +1453,7 @@ def ensure_contiguity_in_observation_rows(obs_id_vector):
     """
     # Check that the choice situation id for each row is larger than or equal
     # to the choice situation id of the preceding row.
-    contiguity_check_array = (obs_id_vector[1:] - obs_id_vector[:-1]) >= 0
+    contiguity_check_array = obs_id_vector[1:] >= obs_id_vector[:-1]
     if not contiguity_check_array.all():
         problem_ids = obs_id_vector[np.where(~contiguity_check_array)]
         msg_1 = "All rows pertaining to a given choice situation must be "
-- 
2.43.0


From cd6b79e09b69bcb9200b85d8f9d781e6d1ebd901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:12 +0000
Subject: [PATCH 10/18] fix: keep coefficient names aligned with the
 specification when names are ordered differently

---
 src/pylogit/choice_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index d9b431e..d451263 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -706,7 +706,8 @@ def create_design_matrix(long_form,
     # Use the list of names passed by the user, if the user passed such a list
     if names is not None:
         var_names = []
-        for value in names.values():
+        for variable in specification_dict:
+            value = names[variable]
             if isinstance(value, str):
                 var_names.append(value)
             else:
-- 
2.43.0


From 0fc6d4c7f98218a9e8b1525155f1adff8f25678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:10 +0000
Subject: [PATCH 11/18] fix: missing inference only for the constrained
 positions when names repeat

---
 src/pylogit/base_multinomial_cm_v2.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 22cb803..5970d0a 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1366,11 +1366,10 @@ class MNDC_Model(object):
             assert all([hasattr(self, x) for x in inferential_attributes])
             assert hasattr(self, "params")
 
-            all_names = self.params.index.tolist()
-
+            # Note that positions are used since names may not be unique.
             for series in [getattr(self, x) for x in inferential_attributes]:
                 for pos in constraints:
-                    series.loc[all_names[pos]] = np.nan
+                    series.iloc[pos] = np.nan
 
         return None
 
-- 
2.43.0


From 426e5bb6fa2c2af78a0629c2ffaf6e3e1b52fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:10 +0000
Subject: [PATCH 12/18] fix: mixed logit predictions with both chosen and
 long-format probabilities

---
 src/pylogit/base_multinomial_cm_v2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 5970d0a..7034c86 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1956,6 +1956,9 @@ class MNDC_Model(object):
                            "chosen_row_to_obs": new_chosen_to_obs,
                            "return_long_probs": return_long_probs}
             prob_array = calc_probabilities(*prob_args, **prob_kwargs)
+            # Both chosen and long-format probabilities may be returned
+            if isinstance(prob_array, tuple):
+                return tuple(x.mean(axis=1) for x in prob_array)
             return prob_array.mean(axis=1)
 
         else:
-- 
2.43.0


From ad145ac65afc6f7c47b4516fe90199e2bc7cb581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:10 +0000
Subject: [PATCH 13/18] fix: match draws to persons in panel predictions when
 their order differs

---
 src/pylogit/mixed_logit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 41716ac..7fbf159 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -869,7 +869,12 @@ class MixedLogit(base_mcm.MNDC_Model):
 
         # Create the 3D design matrix for those choice situations, using the
         # draws that were just taken from the mixing distributions of interest.
-        past_draw_list = [x[new_unique_mix_id_repeats, :] for x in draw_list]
+        # Note the draws of each individual are placed in the order in which the
+        # individuals appear in the original data, as in `past_mappings`.
+        past_draw_idx =\
+            [np.where(orig_order_unique_ids_new == x)[0][0]
+             for x in orig_order_unique_ids_old[old_unique_mix_id_repeats]]
+        past_draw_list = [x[past_draw_idx, :] for x in draw_list]
         design_args = (past_design_2d,
                        past_draw_list,
                        self.mixing_pos,
-- 
2.43.0


From 5316601649d82aacff1181008e95f73e0e3b568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:10 +0000
Subject: [PATCH 14/18] fix: quadratic coefficients when only some estimates
 respond to the weights

---
 src/pylogit/bootstrap_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/bootstrap_abc.py b/src/pylogit/bootstrap_abc.py
index 91a5885..206b223 100644
--- a/src/pylogit/bootstrap_abc.py
+++ b/src/pylogit/bootstrap_abc.py
@@ -735,7 +735,7 @@ def efron_quadratic_coef_abc(model_object,
     term_2 = 2 * mle_params
     # Calculate the quadratic coefficient
     quadratic_coef = np.zeros(term_1.shape, dtype=float)
-    denominator = 2 * std_error * epsilon**2
+    denominator = np.broadcast_to(2 * std_error * epsilon**2, term_1.shape)
     # Only perform the calculations if the values in the component terms are
     # sufficiently different. This is to prevent floating point errors. Note
     # that atol is simply set to a 'reasonably small' number.
@@ -743,7 +743,7 @@ def efron_quadratic_coef_abc(model_object,
     if diff_idx.any():
         quadratic_coef[diff_idx] =\
             ((term_1[diff_idx] - term_2[diff_idx] + term_3[diff_idx]) /
-             denominator)
+             denominator[diff_idx])
     return quadratic_coef
 
 
-- 
2.43.0


From 61b8f280e966e3eacb9a104b46aff86a2b2bd118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:58 +0000
Subject: [PATCH 15/18] fix: use the weights passed to fit_mle

---
 src/pylogit/asym_logit.py        | 3 ++-
 src/pylogit/clog_log.py          | 3 ++-
 src/pylogit/conditional_logit.py | 3 ++-
 src/pylogit/mixed_logit.py       | 3 ++-
 src/pylogit/nested_logit.py      | 3 ++-
 src/pylogit/scobit.py            | 3 ++-
 src/pylogit/uneven_logit.py      | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index e0da3d5..c9024b2 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -1073,7 +1073,8 @@ class MNAL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         asym_estimator.set_derivatives()
 
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index f89fdaf..d9f8ab6 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -738,7 +738,8 @@ class MNCL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         clog_estimator.set_derivatives()
 
diff --git a/src/pylogit/conditional_logit.py b/src/pylogit/conditional_logit.py
index 9688b26..a9b75dc 100644
--- a/src/pylogit/conditional_logit.py
+++ b/src/pylogit/conditional_logit.py
@@ -383,7 +383,8 @@ class MNL(base_mcm.MNDC_Model):
                                      ridge,
                                      zero_vector,
                                      split_param_vec,
-                                     constrained_pos=constrained_pos)
+                                     constrained_pos=constrained_pos,
+                                     weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         mnl_estimator.set_derivatives()
 
diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 7fbf159..fdeb9bd 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -594,7 +594,8 @@ class MixedLogit(base_mcm.MNDC_Model):
                                         ridge,
                                         zero_vector,
                                         split_param_vec,
-                                        constrained_pos=constrained_pos)
+                                        constrained_pos=constrained_pos,
+                                        weights=kwargs.get("weights"))
 
         # Perform one final check on the length of the initial values
         mixl_estimator.check_length_of_initial_values(init_vals)
diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 5b3a6da..d5f42f3 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -529,7 +529,8 @@ class NestedLogit(base_mcm.MNDC_Model):
                           ridge,
                           zero_vector,
                           split_param_vec]
-        estimator_kwargs = {"constrained_pos": final_constrained_pos}
+        estimator_kwargs = {"constrained_pos": final_constrained_pos,
+                            "weights": kwargs.get("weights")}
         nested_estimator = NestedEstimator(*estimator_args,
                                            **estimator_kwargs)
 
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index c2d84d2..f086b81 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -883,7 +883,8 @@ class MNSL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         scobit_estimator.set_derivatives()
 
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 57ad1ca..afed6d4 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -881,7 +881,8 @@ class MNUL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         uneven_estimator.set_derivatives()
 
-- 
2.43.0


From d193d6b8a310406ee911760091dd9c4d7656a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:18 +0000
Subject: [PATCH 16/18] fix: nested logit probabilities above one when exp(V /
 nest coef) nears the overflow limit

Exponentials between 1e300 and the largest double were kept while their sums
overflowed and were replaced by 1e300, which gave probabilities far above one
and positive log-likelihoods. Cap the exponentials at max_comp_value like their
overflowed neighbours.
---
 src/pylogit/nested_choice_calcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index fd79aa5..09f3ed2 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -135,7 +135,7 @@ def calc_nested_probs(nest_coefs,
     exp_scaled_index = np.exp(scaled_index)
 
     # Guard against overflow
-    inf_idx = np.isposinf(exp_scaled_index)
+    inf_idx = (exp_scaled_index > max_comp_value)
     exp_scaled_index[inf_idx] = max_comp_value
     # Guard against underflow. Note that I'm not sure this is the best place or
     # best way to perform such guarding. If all of an observations indices
-- 
2.43.0


From 1c03d78bbc0b26039b9bccfcfa04f724f1d32386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:14 +0000
Subject: [PATCH 17/18] fix: scobit shape derivatives are NaN when the powered
 term overflows

---
 src/pylogit/scobit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index f086b81..1df0dc8 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -355,7 +355,11 @@ def _scobit_transform_deriv_shape(systematic_utilities,
     # shape param is simply exp(shape_param) = natural shape param. The
     # multipication comes from the chain rule.
     curve_derivs = (-1 * np.log1p(exp_neg_v) *
-                    powered_term / (powered_term - 1)) * long_curve_shapes
+                    (powered_term / (powered_term - 1))) * long_curve_shapes
+    # The ratio of the powered terms tends to one as they overflow.
+    overflow_idx = np.isposinf(powered_term)
+    curve_derivs[overflow_idx] =\
+        (-1 * np.log1p(exp_neg_v) * long_curve_shapes)[overflow_idx]
     # Note that all of the following overflow and underflow guards are based
     # on L'Hopital's rule.
     # Guard against underflow from v --> inf. Note we end up with '-1' after
-- 
2.43.0


From eb8435ddd56135711a2a04baac343a5c6510935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:17 +0000
Subject: [PATCH 18/18] fix: nested logit models can be pickled (utility
 transform was a local lambda)

---
 src/pylogit/nested_logit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index d5f42f3..9165ff2 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -32,6 +32,15 @@ _msg_5 = "***WILL BE INCORRECT***."
 _ridge_warning_msg = _msg_3 + _msg_4 + _msg_5
 
 
+# Define the utility transform at module level, so that model objects can be
+# pickled.
+def _nested_utility_transform(systematic_utilities, *args, **kwargs):
+    """
+    Returns the 1D array of systematic utilities as a 2D array with one column.
+    """
+    return systematic_utilities[:, None]
+
+
 # Create a function that will identify degenerate nests
 def identify_degenerate_nests(nest_spec):
     """
@@ -433,7 +442,7 @@ class NestedLogit(base_mcm.MNDC_Model):
         ##########
         # Store the utility transform function
         ##########
-        self.utility_transform = lambda x, *args, **kwargs: x[:, None]
+        self.utility_transform = _nested_utility_transform
 
         return None
 
-- 
2.43.0

