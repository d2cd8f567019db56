From c12575643c13bc1c30e56c77ae90f4d2978a2533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:09 +0000
Subject: [PATCH 01/20] fix: nested logit derivatives when a nest is
 unavailable to an observation

---
 src/pylogit/nested_choice_calcs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index c949a38..ff23d05 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -593,8 +593,9 @@ def calc_nested_gradient(orig_nest_coefs,
     ##########
     # Calculate the term that onlny depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # A nest's sum is only zero when none of its alternatives are available to
+    # the given individual. Such nests do not contribute to the derivative.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters
@@ -770,8 +771,9 @@ def calc_bhhh_hessian_approximation(orig_nest_coefs,
     ##########
     # Calculate the term that only depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
-    # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # A nest's sum is only zero when none of its alternatives are available to
+    # the given individual. Such nests do not contribute to the derivative.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters. Note we do not sum this object since
-- 
2.43.0


From 28f640eda1d468140ff91c9e28386afa3847926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:09 +0000
Subject: [PATCH 02/20] fix: allow estimated Nested Logit models to be pickled

---
 src/pylogit/nested_logit.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 5b3a6da..3aad13a 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -106,6 +106,14 @@ def split_param_vec(all_params, rows_to_nests, return_all_types=False):
         return orig_nest_coefs, index_coefs
 
 
+def nested_utility_transform(sys_utility_array, *args, **kwargs):
+    """
+    Converts the 1D array of systematic utilities into a 2D, column vector.
+    Defined at the module level so that Nested Logit models can be pickled.
+    """
+    return sys_utility_array[:, None]
+
+
 class NestedEstimator(EstimationObj):
     """
     Estimation object for the 2-level Nested Logit Model.
@@ -433,7 +441,7 @@ class NestedLogit(base_mcm.MNDC_Model):
         ##########
         # Store the utility transform function
         ##########
-        self.utility_transform = lambda x, *args, **kwargs: x[:, None]
+        self.utility_transform = nested_utility_transform
 
         return None
 
-- 
2.43.0


From 26ec450f028b03b0de0347f1c656b923be092d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:09 +0000
Subject: [PATCH 03/20] fix: use the weights passed to fit_mle when estimating

---
 src/pylogit/asym_logit.py        | 3 ++-
 src/pylogit/clog_log.py          | 3 ++-
 src/pylogit/conditional_logit.py | 3 ++-
 src/pylogit/mixed_logit.py       | 3 ++-
 src/pylogit/nested_logit.py      | 3 ++-
 src/pylogit/scobit.py            | 3 ++-
 src/pylogit/uneven_logit.py      | 3 ++-
 7 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 301dc9a..2ad514e 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -1073,7 +1073,8 @@ class MNAL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         asym_estimator.set_derivatives()
 
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 59ac3d0..f194af9 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -738,7 +738,8 @@ class MNCL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         clog_estimator.set_derivatives()
 
diff --git a/src/pylogit/conditional_logit.py b/src/pylogit/conditional_logit.py
index 9688b26..a9b75dc 100644
--- a/src/pylogit/conditional_logit.py
+++ b/src/pylogit/conditional_logit.py
@@ -383,7 +383,8 @@ class MNL(base_mcm.MNDC_Model):
                                      ridge,
                                      zero_vector,
                                      split_param_vec,
-                                     constrained_pos=constrained_pos)
+                                     constrained_pos=constrained_pos,
+                                     weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         mnl_estimator.set_derivatives()
 
diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 41716ac..81d2742 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -594,7 +594,8 @@ class MixedLogit(base_mcm.MNDC_Model):
                                         ridge,
                                         zero_vector,
                                         split_param_vec,
-                                        constrained_pos=constrained_pos)
+                                        constrained_pos=constrained_pos,
+                                        weights=kwargs.get("weights"))
 
         # Perform one final check on the length of the initial values
         mixl_estimator.check_length_of_initial_values(init_vals)
diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 3aad13a..3b9c96d 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -537,7 +537,8 @@ class NestedLogit(base_mcm.MNDC_Model):
                           ridge,
                           zero_vector,
                           split_param_vec]
-        estimator_kwargs = {"constrained_pos": final_constrained_pos}
+        estimator_kwargs = {"constrained_pos": final_constrained_pos,
+                            "weights": kwargs.get("weights")}
         nested_estimator = NestedEstimator(*estimator_args,
                                            **estimator_kwargs)
 
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 13256f8..980a3c3 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -880,7 +880,8 @@ class MNSL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         scobit_estimator.set_derivatives()
 
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 701e722..57eaee4 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -881,7 +881,8 @@ class MNUL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=kwargs.get("weights"))
         # Set the derivative functions for estimation
         uneven_estimator.set_derivatives()
 
-- 
2.43.0


From e581fa0fd19fa7888e7c2438263dc67af202f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:36 +0000
Subject: [PATCH 04/20] fix: keep constrained parameters fixed with
 Hessian-based optimizers

---
 src/pylogit/estimation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/estimation.py b/src/pylogit/estimation.py
index c899fc7..f102dce 100644
--- a/src/pylogit/estimation.py
+++ b/src/pylogit/estimation.py
@@ -224,7 +224,16 @@ class EstimationObj(object):
         Calculate and return the negative of the hessian for this model and
         dataset.
         """
-        return -1 * self.convenience_calc_hessian(params)
+        neg_hessian = -1 * self.convenience_calc_hessian(params)
+        # Decouple the constrained parameters from the remaining parameters, so
+        # optimizers that use the hessian do not move the constrained values.
+        if self.constrained_pos is not None:
+            for idx_val in self.constrained_pos:
+                neg_hessian[idx_val, :] = 0
+                neg_hessian[:, idx_val] = 0
+                neg_hessian[idx_val, idx_val] = 1
+
+        return neg_hessian
 
 
 class LogitTypeEstimator(EstimationObj):
-- 
2.43.0


From 7c01c95d379fc800968f126800495d87a79aa6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:18 +0000
Subject: [PATCH 05/20] fix: align availability columns with alternative ids in
 convert_wide_to_long

---
 src/pylogit/choice_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c9653d7..7fe0348 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1629,8 +1629,8 @@ def convert_wide_to_long(wide_data,
     # Create the observation id column,
     #####
     # Determine the various availability values for each observation
-    wide_availability_values = wide_data[list(
-        availability_vars.values())].values
+    # Note the columns must be in the same order as `sorted_alt_ids`
+    wide_availability_values = wide_data[sorted_availability_cols].values
     new_obs_id_col = (wide_availability_values *
                       wide_data[obs_id_col].values[:, None]).ravel()
     # Make sure the observation id column has an integer data type
-- 
2.43.0


From f53107d17178251b6f77f0d6a4774afd290a4103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:34 +0000
Subject: [PATCH 06/20] fix: check that every single observation has exactly
 one recorded choice

---
 src/pylogit/choice_tools.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 7fe0348..be8bcac 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -495,8 +495,8 @@ def check_dataframe_for_duplicate_records(obs_id_col, alt_id_col, df):
 
 def ensure_num_chosen_alts_equals_num_obs(obs_id_col, choice_col, df):
     """
-    Checks that the total number of recorded choices equals the total number of
-    observations. If this is not the case, raise helpful ValueError messages.
+    Checks that there is exactly one recorded choice for each observation. If
+    this is not the case, raise helpful ValueError messages.
 
     Parameters
     ----------
@@ -514,14 +514,13 @@ def ensure_num_chosen_alts_equals_num_obs(obs_id_col, choice_col, df):
     -------
     None.
     """
-    num_obs = df[obs_id_col].unique().shape[0]
-    num_choices = df[choice_col].sum()
+    num_choices = df.groupby(obs_id_col)[choice_col].sum()
 
-    if num_choices < num_obs:
+    if (num_choices < 1).any():
         msg = "One or more observations have not chosen one "
         msg_2 = "of the alternatives available to him/her"
         raise ValueError(msg + msg_2)
-    if num_choices > num_obs:
+    if (num_choices > 1).any():
         msg = "One or more observations has chosen multiple alternatives"
         raise ValueError(msg)
 
-- 
2.43.0


From 0728125704531ba846b00513183aed5b233745bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:50 +0000
Subject: [PATCH 07/20] fix: assign choices by observation id in
 convert_long_to_wide

---
 src/pylogit/choice_tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index be8bcac..27b9a3a 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1141,8 +1141,11 @@ def convert_long_to_wide(long_data,
     #####
     # Create the choice column in the wide data format
     #####
-    new_df[choice_col] = long_data.loc[long_data[choice_col] == 1,
-                                       alt_id_col].values
+    # Note that the rows of a given observation need not be contiguous
+    chosen_rows = long_data.loc[long_data[choice_col] == 1]
+    chosen_alts = pd.Series(chosen_rows[alt_id_col].values,
+                            index=chosen_rows[obs_id_col].values)
+    new_df[choice_col] = chosen_alts.loc[new_df[obs_id_col].values].values
 
     #####
     # Create the availability columns
-- 
2.43.0


From 0a290dfdbcd32328b24c5519d433f971b912ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:06 +0000
Subject: [PATCH 08/20] fix: convert_long_to_wide without alternative or subset
 specific variables

---
 src/pylogit/choice_tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 27b9a3a..45a14be 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1231,17 +1231,13 @@ def convert_long_to_wide(long_data,
         # Store the current alternative specific variable columns/dataframe
         alt_specific_dfs.append(obs_to_var_df)
 
-    # Combine all of the various alternative specific variable dataframes
-    final_alt_specific_df = pd.concat(alt_specific_dfs, axis=1)
-
     ##########
     # Construct the final wide format dataframe to be returned
     ##########
     final_wide_df = pd.concat([new_df[[obs_id_col]],
                                new_df[[choice_col]],
                                availability_df,
-                               new_df[ind_vars],
-                               final_alt_specific_df],
+                               new_df[ind_vars]] + alt_specific_dfs,
                               axis=1)
 
     # Make sure one has the correct number of rows and columns in
-- 
2.43.0


From 2bee12afe7ea40e28e1c4f1f230974bc93dbe8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:45 +0000
Subject: [PATCH 09/20] fix: match simulation draws to individuals in
 panel_predict

---
 src/pylogit/mixed_logit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 81d2742..0bee77b 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -870,7 +870,13 @@ class MixedLogit(base_mcm.MNDC_Model):
 
         # Create the 3D design matrix for those choice situations, using the
         # draws that were just taken from the mixing distributions of interest.
-        past_draw_list = [x[new_unique_mix_id_repeats, :] for x in draw_list]
+        # Note the draws must be in the order in which the individuals appear in
+        # the original dataset, since that is the order used by past_mappings.
+        rel_old_ids = orig_order_unique_ids_old[old_unique_mix_id_repeats]
+        draw_positions =\
+            np.array([np.where(orig_order_unique_ids_new == x)[0][0]
+                      for x in rel_old_ids], dtype=int)
+        past_draw_list = [x[draw_positions, :] for x in draw_list]
         design_args = (past_design_2d,
                        past_draw_list,
                        self.mixing_pos,
@@ -913,7 +919,6 @@ class MixedLogit(base_mcm.MNDC_Model):
         rel_new_ids = orig_order_unique_ids_new[new_unique_mix_id_repeats]
         num_rel_new_id = rel_new_ids.shape[0]
         new_unique_mix_id_repeats_2d = rel_new_ids.reshape((num_rel_new_id, 1))
-        rel_old_ids = orig_order_unique_ids_old[old_unique_mix_id_repeats]
         num_rel_old_id = rel_old_ids.shape[0]
         old_unique_mix_id_repeats_2d = rel_old_ids.reshape((1, num_rel_old_id))
         new_to_old_repeat_ids = csr_matrix(new_unique_mix_id_repeats_2d ==
-- 
2.43.0


From adf8d3c834cbe2521a9401fbad56ecc6aecf725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 10/20] fix: predictions from 2D parameter arrays

---
 src/pylogit/base_multinomial_cm_v2.py | 4 ++++
 src/pylogit/scobit.py                 | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 22cb803..e1411a8 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1902,6 +1902,10 @@ class MNDC_Model(object):
             new_nest_coefs = (self.nests.values if self.nests
                               is not None else None)
         else:
+            # Treat 2D arrays with a single column like their 1D equivalents
+            if param_list[0].ndim == 2 and param_list[0].shape[1] == 1:
+                param_list = [x if x is None else x.ravel()
+                              for x in param_list]
             new_index_coefs = param_list[0]
             new_intercepts = param_list[1]
             new_shape_params = param_list[2]
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 980a3c3..c4b7060 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -174,7 +174,8 @@ def _scobit_utility_transform(systematic_utilities,
     else:
         # Create a full set of intercept parameters including the intercept
         # constrained to zero
-        all_intercepts = np.zeros(rows_to_alts.shape[1])
+        all_intercepts = np.zeros((rows_to_alts.shape[1],) +
+                                  systematic_utilities.shape[1:])
 
     # Figure out what intercept values correspond to each row of the
     # systematic utilities
-- 
2.43.0


From 6c4d13465e1386ecfb075673f0d53c782e778e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:56 +0000
Subject: [PATCH 11/20] fix: return chosen and long probabilities when
 predicting with choice_col

---
 src/pylogit/base_multinomial_cm_v2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index e1411a8..73946e9 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1917,7 +1917,9 @@ class MNDC_Model(object):
             # Get the 'natural' nest coefficients for prediction
             new_natural_nests = naturalize_nest_coefs(new_nest_coefs)
             # Determine the return string for the nested logit model
-            if return_long_probs:
+            if return_long_probs and choice_col is not None:
+                return_string = "long_and_chosen_probs"
+            elif return_long_probs:
                 return_string = "long_probs"
             else:
                 return_string = "chosen_probs"
@@ -1961,6 +1963,9 @@ class MNDC_Model(object):
                            "chosen_row_to_obs": new_chosen_to_obs,
                            "return_long_probs": return_long_probs}
             prob_array = calc_probabilities(*prob_args, **prob_kwargs)
+            # Account for having both the chosen and the long probabilities
+            if isinstance(prob_array, tuple):
+                return tuple(x.mean(axis=1) for x in prob_array)
             return prob_array.mean(axis=1)
 
         else:
-- 
2.43.0


From 932e9e431376b88e63ef49d20de04b6aaee5af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:53 +0000
Subject: [PATCH 12/20] fix: use the weights passed when generating bootstrap
 replicates

---
 src/pylogit/bootstrap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 0dab7ae..09d725d 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -333,6 +333,12 @@ class Boot(object):
                                               dfs_by_obs_id,
                                               boot_id_col=boot_id_col)
 
+            # Let the weights follow the resampled observations.
+            if weights is not None:
+                fit_kwargs["weights"] =\
+                    np.concatenate([weights[obs_id_array == obs_id]
+                                    for obs_id in obs_id_per_sample[row, :]])
+
             # Go through the necessary estimation routine to bootstrap the MLE.
             current_results =\
                 retrieve_point_est(self.model_obj,
-- 
2.43.0


From c0f369c6b3f3f373cedd34a122329d7ae28c1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:08 +0000
Subject: [PATCH 13/20] fix: default finite difference step for ABC confidence
 intervals

---
 src/pylogit/bootstrap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 09d725d..fdb56a2 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -762,7 +762,7 @@ class Boot(object):
             Should denote the 'very small' value being used to calculate the
             desired finite difference approximations to the various influence
             functions. Should be close to zero.
-            Default == sys.float_info.epsilon.
+            Default == 0.001.
         fit_kwargs : additional keyword arguments, optional.
             Should contain any additional kwargs used to alter the default
             behavior of `model_obj.fit_mle` and thereby enforce conformity with
@@ -800,7 +800,7 @@ class Boot(object):
                             conf_percentage,
                             interval_type='all',
                             init_vals=None,
-                            epsilon=abc.EPSILON,
+                            epsilon=0.001,
                             **fit_kwargs):
         """
         Calculates percentile, bias-corrected and accelerated, and approximate
@@ -823,7 +823,7 @@ class Boot(object):
             Should denote the 'very small' value being used to calculate the
             desired finite difference approximations to the various influence
             functions for the 'abc' intervals. Should be close to zero.
-            Default == sys.float_info.epsilon.
+            Default == 0.001.
         fit_kwargs : additional keyword arguments, optional.
             Should contain any additional kwargs used to alter the default
             behavior of `model_obj.fit_mle` and thereby enforce conformity with
-- 
2.43.0


From fb5cd3b40fcc8e4c2b67aa308daf50425aacfddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:31 +0000
Subject: [PATCH 14/20] fix: respect estimation settings when bootstrapping MNL
 models

---
 src/pylogit/bootstrap_mle.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 7556ef7..a591e61 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -202,8 +202,9 @@ def get_mnl_point_est(orig_model_obj,
         if mnl_fit_kwargs is None:
             mnl_fit_kwargs = {}
 
-    # Alter the mnl_fit_kwargs to ensure that we only perform point estimation
-    mnl_fit_kwargs["just_point"] = True
+    # Alter the mnl_fit_kwargs to ensure that we only perform point estimation.
+    # Use a copy so that the user's dictionary is not modified.
+    mnl_fit_kwargs = dict(mnl_fit_kwargs, just_point=True)
     # Use BFGS by default to estimate the MNL since it works well for the MNL.
     if "method" not in mnl_fit_kwargs:
         mnl_fit_kwargs["method"] = "BFGS"
@@ -289,6 +290,10 @@ def retrieve_point_est(orig_model_obj,
         The dictionary returned by `scipy.optimize` after estimating the
         desired choice model.
     """
+    # If the desired model is an MNL, then the desired model's fit_kwargs apply
+    if orig_model_obj.model_type == model_type_to_display_name["MNL"]:
+        mnl_fit_kwargs = dict(fit_kwargs, **(mnl_fit_kwargs or {}))
+
     # Get the MNL point estimate for the parameters of this bootstrap sample.
     mnl_point, mnl_obj = get_mnl_point_est(orig_model_obj,
                                            new_df,
-- 
2.43.0


From 0f114607926e926cd5a822bcb74c58cb841418bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:09 +0000
Subject: [PATCH 15/20] fix: overflow guards of the nested logit probabilities

---
 src/pylogit/nested_choice_calcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index ff23d05..d93f179 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -135,7 +135,7 @@ def calc_nested_probs(nest_coefs,
     exp_scaled_index = np.exp(scaled_index)
 
     # Guard against overflow
-    inf_idx = np.isposinf(exp_scaled_index)
+    inf_idx = exp_scaled_index > max_comp_value
     exp_scaled_index[inf_idx] = max_comp_value
     # Guard against underflow. Note that I'm not sure this is the best place or
     # best way to perform such guarding. If all of an observations indices
@@ -144,7 +144,7 @@ def calc_nested_probs(nest_coefs,
     # probability. However, replacing underflowed values here may result in
     # incorrectly assigning probabilities of either zero for all alternatives
     # or 1 / num_alternatives for all alternatives.
-    zero_idx = (exp_scaled_index == 0)
+    zero_idx = exp_scaled_index < min_comp_value
     exp_scaled_index[zero_idx] = min_comp_value
 
     # Calculate the log-sum for each nest, for each observation. Note that the
-- 
2.43.0


From b608de40c315b35e91a9a3d0ff910dd731db4c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:57 +0000
Subject: [PATCH 16/20] fix: mixed logit models with integer valued designs

---
 src/pylogit/mixed_logit_calcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit_calcs.py b/src/pylogit/mixed_logit_calcs.py
index 1973eba..f77cac3 100755
--- a/src/pylogit/mixed_logit_calcs.py
+++ b/src/pylogit/mixed_logit_calcs.py
@@ -151,7 +151,7 @@ def create_expanded_design_for_mixing(design,
     # variables that are being mixed over.
     arrays_for_mixing = design[:, mixing_pos]
     expanded_design = np.concatenate((design, arrays_for_mixing),
-                                     axis=1).copy()
+                                     axis=1).astype(float)
     design_3d = np.repeat(expanded_design[:, None, :],
                           repeats=num_draws,
                           axis=1)
-- 
2.43.0


From ef434c513503762a53bcfe01abc778d403d4687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:43 +0000
Subject: [PATCH 17/20] fix: convert_long_to_wide for data whose index is named
 like a column

---
 src/pylogit/choice_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 45a14be..05fc656 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -514,7 +514,7 @@ def ensure_num_chosen_alts_equals_num_obs(obs_id_col, choice_col, df):
     -------
     None.
     """
-    num_choices = df.groupby(obs_id_col)[choice_col].sum()
+    num_choices = df[choice_col].groupby(df[obs_id_col].values).sum()
 
     if (num_choices < 1).any():
         msg = "One or more observations have not chosen one "
@@ -1136,7 +1136,7 @@ def convert_long_to_wide(long_data,
     new_df = long_data[[obs_id_col] + ind_vars].drop_duplicates()
 
     # Reset the index so that the index is not based on long_data
-    new_df.reset_index(inplace=True)
+    new_df.reset_index(drop=True, inplace=True)
 
     #####
     # Create the choice column in the wide data format
-- 
2.43.0


From c9db5817d4c8ceb8c278df8fac6a47c75d09398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:51 +0000
Subject: [PATCH 18/20] fix: ABC quadratic coefficient when only some
 parameters are nonlinear

The masked numerator was divided by the unmasked vector of denominators, so
the interval calculation crashed whenever the second difference vanished for
some parameters but not for others.
---
 src/pylogit/bootstrap_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_abc.py b/src/pylogit/bootstrap_abc.py
index 91a5885..b773d68 100644
--- a/src/pylogit/bootstrap_abc.py
+++ b/src/pylogit/bootstrap_abc.py
@@ -743,7 +743,7 @@ def efron_quadratic_coef_abc(model_object,
     if diff_idx.any():
         quadratic_coef[diff_idx] =\
             ((term_1[diff_idx] - term_2[diff_idx] + term_3[diff_idx]) /
-             denominator)
+             denominator[diff_idx])
     return quadratic_coef
 
 
-- 
2.43.0


From 48e5ea139deb27a4d90af924375fdab999f93b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:40 +0000
Subject: [PATCH 19/20] fix: label coefficients in the order of the
 specification, not of the names dictionary

---
 src/pylogit/choice_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 05fc656..feefd4d 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -705,7 +705,9 @@ def create_design_matrix(long_form,
     # Use the list of names passed by the user, if the user passed such a list
     if names is not None:
         var_names = []
-        for value in names.values():
+        # Use the order of specification_dict, i.e. the order of the columns
+        for variable in specification_dict:
+            value = names[variable]
             if isinstance(value, str):
                 var_names.append(value)
             else:
-- 
2.43.0


From f99cfbc3600cf39760bbbd081855619e43fd76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:22 +0000
Subject: [PATCH 20/20] fix: contiguity check of observation ids for unsigned
 and narrow integer ids

---
 src/pylogit/choice_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index feefd4d..379c9f6 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1451,7 +1451,7 @@ def ensure_contiguity_in_observation_rows(obs_id_vector):
     """
     # Check that the choice situation id for each row is larger than or equal
     # to the choice situation id of the preceding row.
-    contiguity_check_array = (obs_id_vector[1:] - obs_id_vector[:-1]) >= 0
+    contiguity_check_array = obs_id_vector[1:] >= obs_id_vector[:-1]
     if not contiguity_check_array.all():
         problem_ids = obs_id_vector[np.where(~contiguity_check_array)]
         msg_1 = "All rows pertaining to a given choice situation must be "
-- 
2.43.0

