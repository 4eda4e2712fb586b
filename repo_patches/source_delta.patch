From 401055870ba787a560bf465c6b34f3d5e1a9d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:13 +0000
Subject: [PATCH 01/29] fix: keep availability columns aligned with sorted
 alternative ids in convert_wide_to_long

---
 src/pylogit/choice_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c9653d7..467f2c5 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1629,8 +1629,8 @@ def convert_wide_to_long(wide_data,
     # Create the observation id column,
     #####
     # Determine the various availability values for each observation
-    wide_availability_values = wide_data[list(
-        availability_vars.values())].values
+    # Note the columns need to be in the same order as `sorted_alt_ids`.
+    wide_availability_values = wide_data[sorted_availability_cols].values
     new_obs_id_col = (wide_availability_values *
                       wide_data[obs_id_col].values[:, None]).ravel()
     # Make sure the observation id column has an integer data type
-- 
2.43.0


From b35b4a3f62a5149ac78812d470e72758eee9e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:13 +0000
Subject: [PATCH 02/29] fix: order user-provided coefficient names by the
 specification in create_design_matrix

---
 src/pylogit/choice_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 467f2c5..9f10021 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -706,7 +706,8 @@ def create_design_matrix(long_form,
     # Use the list of names passed by the user, if the user passed such a list
     if names is not None:
         var_names = []
-        for value in names.values():
+        # Use the specification's order since that is the order of the columns
+        for value in [names[variable] for variable in specification_dict]:
             if isinstance(value, str):
                 var_names.append(value)
             else:
-- 
2.43.0


From af4fb6e804e550933cd03cdc00e027c6a609e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:43 +0000
Subject: [PATCH 03/29] fix: match choices to observations by id in
 convert_long_to_wide and require one choice per observation

---
 src/pylogit/choice_tools.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 9f10021..c254212 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -495,8 +495,8 @@ def check_dataframe_for_duplicate_records(obs_id_col, alt_id_col, df):
 
 def ensure_num_chosen_alts_equals_num_obs(obs_id_col, choice_col, df):
     """
-    Checks that the total number of recorded choices equals the total number of
-    observations. If this is not the case, raise helpful ValueError messages.
+    Checks that exactly one choice is recorded for each observation. If this is
+    not the case, raise helpful ValueError messages.
 
     Parameters
     ----------
@@ -514,14 +514,13 @@ def ensure_num_chosen_alts_equals_num_obs(obs_id_col, choice_col, df):
     -------
     None.
     """
-    num_obs = df[obs_id_col].unique().shape[0]
-    num_choices = df[choice_col].sum()
+    num_choices = df.groupby(obs_id_col)[choice_col].sum()
 
-    if num_choices < num_obs:
+    if (num_choices < 1).any():
         msg = "One or more observations have not chosen one "
         msg_2 = "of the alternatives available to him/her"
         raise ValueError(msg + msg_2)
-    if num_choices > num_obs:
+    if (num_choices > 1).any():
         msg = "One or more observations has chosen multiple alternatives"
         raise ValueError(msg)
 
@@ -1143,8 +1142,12 @@ def convert_long_to_wide(long_data,
     #####
     # Create the choice column in the wide data format
     #####
-    new_df[choice_col] = long_data.loc[long_data[choice_col] == 1,
-                                       alt_id_col].values
+    # Match each chosen alternative to its observation by observation id since
+    # the rows of the various observations may be interleaved in long_data
+    chosen_rows = long_data.loc[long_data[choice_col] == 1]
+    chosen_alts = pd.Series(chosen_rows[alt_id_col].values,
+                            index=chosen_rows[obs_id_col].values)
+    new_df[choice_col] = chosen_alts.loc[new_df[obs_id_col].values].values
 
     #####
     # Create the availability columns
-- 
2.43.0


From d8a80fd9a00512c0450ee6af95a1769807bbdc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:43 +0000
Subject: [PATCH 04/29] fix: let convert_long_to_wide handle data without
 alternative specific variables

---
 src/pylogit/choice_tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index c254212..d21ce5d 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1233,17 +1233,13 @@ def convert_long_to_wide(long_data,
         # Store the current alternative specific variable columns/dataframe
         alt_specific_dfs.append(obs_to_var_df)
 
-    # Combine all of the various alternative specific variable dataframes
-    final_alt_specific_df = pd.concat(alt_specific_dfs, axis=1)
-
     ##########
     # Construct the final wide format dataframe to be returned
     ##########
     final_wide_df = pd.concat([new_df[[obs_id_col]],
                                new_df[[choice_col]],
                                availability_df,
-                               new_df[ind_vars],
-                               final_alt_specific_df],
+                               new_df[ind_vars]] + alt_specific_dfs,
                               axis=1)
 
     # Make sure one has the correct number of rows and columns in
-- 
2.43.0


From 72859b75cbb74a319ac2453a06af5f8d47862b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:36 +0000
Subject: [PATCH 05/29] fix: honour the weights passed to fit_mle in every
 model

---
 src/pylogit/asym_logit.py        | 9 ++++++++-
 src/pylogit/clog_log.py          | 9 ++++++++-
 src/pylogit/conditional_logit.py | 9 ++++++++-
 src/pylogit/mixed_logit.py       | 9 ++++++++-
 src/pylogit/nested_logit.py      | 9 ++++++++-
 src/pylogit/scobit.py            | 9 ++++++++-
 src/pylogit/uneven_logit.py      | 9 ++++++++-
 7 files changed, 56 insertions(+), 7 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 301dc9a..20d23e9 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -927,6 +927,7 @@ class MNAL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -989,6 +990,11 @@ class MNAL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Should have one non-negative element per row of the data used to
+            estimate the model. Allows for the calculation of weighted
+            log-likelihoods. If None, all rows have a weight of one.
+            Default == None.
 
         Returns
         -------
@@ -1073,7 +1079,8 @@ class MNAL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=weights)
         # Set the derivative functions for estimation
         asym_estimator.set_derivatives()
 
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index 59ac3d0..b4367ac 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -621,6 +621,7 @@ class MNCL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -677,6 +678,11 @@ class MNCL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Should have one non-negative element per row of the data used to
+            estimate the model. Allows for the calculation of weighted
+            log-likelihoods. If None, all rows have a weight of one.
+            Default == None.
 
         Returns
         -------
@@ -738,7 +744,8 @@ class MNCL(base_mcm.MNDC_Model):
                                        ridge,
                                        zero_vector,
                                        split_param_vec,
-                                       constrained_pos=constrained_pos)
+                                       constrained_pos=constrained_pos,
+                                       weights=weights)
         # Set the derivative functions for estimation
         clog_estimator.set_derivatives()
 
diff --git a/src/pylogit/conditional_logit.py b/src/pylogit/conditional_logit.py
index 9688b26..35859f4 100644
--- a/src/pylogit/conditional_logit.py
+++ b/src/pylogit/conditional_logit.py
@@ -312,6 +312,7 @@ class MNL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -348,6 +349,11 @@ class MNL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Should have one non-negative element per row of the data used to
+            estimate the model. Allows for the calculation of weighted
+            log-likelihoods. If None, all rows have a weight of one.
+            Default == None.
 
         Returns
         -------
@@ -383,7 +389,8 @@ class MNL(base_mcm.MNDC_Model):
                                      ridge,
                                      zero_vector,
                                      split_param_vec,
-                                     constrained_pos=constrained_pos)
+                                     constrained_pos=constrained_pos,
+                                     weights=weights)
         # Set the derivative functions for estimation
         mnl_estimator.set_derivatives()
 
diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 41716ac..e90ba4d 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -500,6 +500,7 @@ class MixedLogit(base_mcm.MNDC_Model):
                 maxiter=1000,
                 ridge=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -548,6 +549,11 @@ class MixedLogit(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Should have one non-negative element per row of the data used to
+            estimate the model. Allows for the calculation of weighted
+            log-likelihoods. If None, all rows have a weight of one.
+            Default == None.
 
         Returns
         -------
@@ -594,7 +600,8 @@ class MixedLogit(base_mcm.MNDC_Model):
                                         ridge,
                                         zero_vector,
                                         split_param_vec,
-                                        constrained_pos=constrained_pos)
+                                        constrained_pos=constrained_pos,
+                                        weights=weights)
 
         # Perform one final check on the length of the initial values
         mixl_estimator.check_length_of_initial_values(init_vals)
diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 5b3a6da..33f7e4a 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -447,6 +447,7 @@ class NestedLogit(base_mcm.MNDC_Model):
                 maxiter=1000,
                 ridge=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -486,6 +487,11 @@ class NestedLogit(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Should have one non-negative element per row of the data used to
+            estimate the model. Allows for the calculation of weighted
+            log-likelihoods. If None, all rows have a weight of one.
+            Default == None.
 
         Returns
         -------
@@ -529,7 +535,8 @@ class NestedLogit(base_mcm.MNDC_Model):
                           ridge,
                           zero_vector,
                           split_param_vec]
-        estimator_kwargs = {"constrained_pos": final_constrained_pos}
+        estimator_kwargs = {"constrained_pos": final_constrained_pos,
+                            "weights": weights}
         nested_estimator = NestedEstimator(*estimator_args,
                                            **estimator_kwargs)
 
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 13256f8..fca2534 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -737,6 +737,7 @@ class MNSL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -798,6 +799,11 @@ class MNSL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Should have one non-negative element per row of the data used to
+            estimate the model. Allows for the calculation of weighted
+            log-likelihoods. If None, all rows have a weight of one.
+            Default == None.
 
         Returns
         -------
@@ -880,7 +886,8 @@ class MNSL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=weights)
         # Set the derivative functions for estimation
         scobit_estimator.set_derivatives()
 
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 701e722..a8fcfc3 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -737,6 +737,7 @@ class MNUL(base_mcm.MNDC_Model):
                 ridge=None,
                 constrained_pos=None,
                 just_point=False,
+                weights=None,
                 **kwargs):
         """
         Parameters
@@ -798,6 +799,11 @@ class MNUL(base_mcm.MNDC_Model):
             critical for obtaining the maximum likelihood point estimate will
             be performed. If True, this function will return the results
             dictionary from scipy.optimize. Default == False.
+        weights : 1D ndarray or None, optional.
+            Should have one non-negative element per row of the data used to
+            estimate the model. Allows for the calculation of weighted
+            log-likelihoods. If None, all rows have a weight of one.
+            Default == None.
 
         Returns
         -------
@@ -881,7 +887,8 @@ class MNUL(base_mcm.MNDC_Model):
                                            ridge,
                                            zero_vector,
                                            split_param_vec,
-                                           constrained_pos=constrained_pos)
+                                           constrained_pos=constrained_pos,
+                                           weights=weights)
         # Set the derivative functions for estimation
         uneven_estimator.set_derivatives()
 
-- 
2.43.0


From a1b1cb942835153bd5fcdc1305769aa216da6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:48 +0000
Subject: [PATCH 06/29] fix: use calc_abc_interval's finite difference step as
 the default in calc_conf_intervals

---
 src/pylogit/bootstrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index 0dab7ae..bc1737b 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -794,7 +794,7 @@ class Boot(object):
                             conf_percentage,
                             interval_type='all',
                             init_vals=None,
-                            epsilon=abc.EPSILON,
+                            epsilon=0.001,
                             **fit_kwargs):
         """
         Calculates percentile, bias-corrected and accelerated, and approximate
@@ -817,7 +817,7 @@ class Boot(object):
             Should denote the 'very small' value being used to calculate the
             desired finite difference approximations to the various influence
             functions for the 'abc' intervals. Should be close to zero.
-            Default == sys.float_info.epsilon.
+            Default == 0.001.
         fit_kwargs : additional keyword arguments, optional.
             Should contain any additional kwargs used to alter the default
             behavior of `model_obj.fit_mle` and thereby enforce conformity with
-- 
2.43.0


From 9ee5c94c33f4ae48ee13aadc0af6d55138f57e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:48 +0000
Subject: [PATCH 07/29] fix: do not alter the caller's mnl_fit_kwargs when
 bootstrapping

---
 src/pylogit/bootstrap_mle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index 7556ef7..c9393bb 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -203,6 +203,8 @@ def get_mnl_point_est(orig_model_obj,
             mnl_fit_kwargs = {}
 
     # Alter the mnl_fit_kwargs to ensure that we only perform point estimation
+    # Note we work on a copy, so the caller's dictionary is left untouched.
+    mnl_fit_kwargs = dict(mnl_fit_kwargs)
     mnl_fit_kwargs["just_point"] = True
     # Use BFGS by default to estimate the MNL since it works well for the MNL.
     if "method" not in mnl_fit_kwargs:
-- 
2.43.0


From 91eeff000b328ee0d73e29831d90d17540788dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 08/29] fix: use the passed estimation options when
 bootstrapping or jackknifing an MNL model

---
 src/pylogit/bootstrap_mle.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pylogit/bootstrap_mle.py b/src/pylogit/bootstrap_mle.py
index c9393bb..7c5acc4 100644
--- a/src/pylogit/bootstrap_mle.py
+++ b/src/pylogit/bootstrap_mle.py
@@ -291,6 +291,12 @@ def retrieve_point_est(orig_model_obj,
         The dictionary returned by `scipy.optimize` after estimating the
         desired choice model.
     """
+    # If the desired model is itself an MNL, then it should be estimated using
+    # the passed fit_kwargs unless its own keyword arguments were given.
+    if (mnl_fit_kwargs is None and
+            orig_model_obj.model_type == model_type_to_display_name["MNL"]):
+        mnl_fit_kwargs = fit_kwargs
+
     # Get the MNL point estimate for the parameters of this bootstrap sample.
     mnl_point, mnl_obj = get_mnl_point_est(orig_model_obj,
                                            new_df,
-- 
2.43.0


From 35718787564d51eefe22783cf8c79f695dfe86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:00 +0000
Subject: [PATCH 09/29] fix: use the passed weights when generating bootstrap
 replicates

---
 src/pylogit/bootstrap.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pylogit/bootstrap.py b/src/pylogit/bootstrap.py
index bc1737b..cfd8dae 100644
--- a/src/pylogit/bootstrap.py
+++ b/src/pylogit/bootstrap.py
@@ -333,6 +333,12 @@ class Boot(object):
                                               dfs_by_obs_id,
                                               boot_id_col=boot_id_col)
 
+            # Get the weights of the resampled rows.
+            if weights is not None:
+                fit_kwargs["weights"] =\
+                    np.concatenate([weights[obs_id_array == obs_id] for
+                                    obs_id in obs_id_per_sample[row, :]])
+
             # Go through the necessary estimation routine to bootstrap the MLE.
             current_results =\
                 retrieve_point_est(self.model_obj,
-- 
2.43.0


From dfc266f90d1c90a5c344037704d051175dbb5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:52 +0000
Subject: [PATCH 10/29] fix: ignore nests that are unavailable to an
 observation in the nested logit gradient and BHHH matrix

---
 src/pylogit/nested_choice_calcs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/nested_choice_calcs.py b/src/pylogit/nested_choice_calcs.py
index c949a38..f6e2a77 100644
--- a/src/pylogit/nested_choice_calcs.py
+++ b/src/pylogit/nested_choice_calcs.py
@@ -594,7 +594,9 @@ def calc_nested_gradient(orig_nest_coefs,
     # Calculate the term that onlny depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
     # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # Nests without any available alternative for a given observation do not
+    # enter that observation's log-likelihood, so they contribute nothing here.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters
@@ -771,7 +773,9 @@ def calc_bhhh_hessian_approximation(orig_nest_coefs,
     # Calculate the term that only depends on nest level values
     log_exp_sums = np.log(vector_dict["ind_sums_per_nest"])
     # Guard against overflow
-    log_exp_sums[np.isneginf(log_exp_sums)] = -1 * max_comp_value
+    # Nests without any available alternative for a given observation do not
+    # enter that observation's log-likelihood, so they contribute nothing here.
+    log_exp_sums[np.isneginf(log_exp_sums)] = 0
 
     # Calculate the first term of the derivative of the log-liikelihood
     # with respect to the nest parameters. Note we do not sum this object since
-- 
2.43.0


From 26b6687695c912e702ef0b187b467008df53a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:08 +0000
Subject: [PATCH 11/29] fix: allow nested logit models to be pickled

---
 src/pylogit/nested_logit.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/nested_logit.py b/src/pylogit/nested_logit.py
index 33f7e4a..115b4b5 100644
--- a/src/pylogit/nested_logit.py
+++ b/src/pylogit/nested_logit.py
@@ -58,6 +58,25 @@ def identify_degenerate_nests(nest_spec):
     return degenerate_positions
 
 
+# Define the utility transform at the module level so nested logit model objects
+# can be pickled.
+def _nested_utility_transform(sys_utility_array, *args, **kwargs):
+    """
+    Converts the 1D array of systematic utilities into a 2D, column vector.
+
+    Parameters
+    ----------
+    sys_utility_array : 1D ndarray.
+        Should have one element for each available alternative for each choice
+        situation. The values should be the index for each alternative.
+
+    Returns
+    -------
+    2D ndarray with the same elements as `sys_utility_array`.
+    """
+    return sys_utility_array[:, None]
+
+
 # Define a functionto split the combined parameter array into nest coefficients
 # and index coefficients.
 def split_param_vec(all_params, rows_to_nests, return_all_types=False):
@@ -433,7 +452,7 @@ class NestedLogit(base_mcm.MNDC_Model):
         ##########
         # Store the utility transform function
         ##########
-        self.utility_transform = lambda x, *args, **kwargs: x[:, None]
+        self.utility_transform = _nested_utility_transform
 
         return None
 
-- 
2.43.0


From 458ebf4a8e9b85709ee4a7a905c51e539ee2204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:23 +0000
Subject: [PATCH 12/29] fix: return both chosen and long probabilities from
 predict for nested and mixed logit models when asked to

---
 src/pylogit/base_multinomial_cm_v2.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 22cb803..a096e3e 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1913,7 +1913,9 @@ class MNDC_Model(object):
             # Get the 'natural' nest coefficients for prediction
             new_natural_nests = naturalize_nest_coefs(new_nest_coefs)
             # Determine the return string for the nested logit model
-            if return_long_probs:
+            if return_long_probs and choice_col is not None:
+                return_string = "long_and_chosen_probs"
+            elif return_long_probs:
                 return_string = "long_probs"
             else:
                 return_string = "chosen_probs"
@@ -1957,6 +1959,10 @@ class MNDC_Model(object):
                            "chosen_row_to_obs": new_chosen_to_obs,
                            "return_long_probs": return_long_probs}
             prob_array = calc_probabilities(*prob_args, **prob_kwargs)
+            # Average over the draws. Note a tuple of arrays is returned when
+            # both the long and the chosen probabilities were requested.
+            if isinstance(prob_array, tuple):
+                return tuple(x.mean(axis=1) for x in prob_array)
             return prob_array.mean(axis=1)
 
         else:
-- 
2.43.0


From 0b81ac9a1a4e49d00fcdfc06858d96154b933960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:56 +0000
Subject: [PATCH 13/29] fix: keep probabilities two dimensional for mixed logit
 models with a single draw

---
 src/pylogit/choice_calcs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 5e24be5..696bc1a 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -156,7 +156,12 @@ def calc_probabilities(beta,
     individual_denominators = np.asarray(rows_to_obs.transpose().dot(
                                                     long_exponentials))
     long_denominators = np.asarray(rows_to_obs.dot(individual_denominators))
-    if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+    # With a 3D design matrix, the results always have one column per draw, even
+    # if there is only a single draw.
+    has_multiple_cols =\
+        (len(long_exponentials.shape) > 1 and
+         (long_exponentials.shape[1] > 1 or len(design.shape) >= 3))
+    if has_multiple_cols:
         long_probs = (long_exponentials / long_denominators)
     else:
         long_probs = (long_exponentials / long_denominators).ravel()
@@ -170,7 +175,7 @@ def calc_probabilities(beta,
         # chosen_probs will be of shape (num_observations,)
         chosen_exponentials = np.asarray(
                          chosen_row_to_obs.transpose().dot(long_exponentials))
-        if len(long_exponentials.shape) > 1 and long_exponentials.shape[1] > 1:
+        if has_multiple_cols:
             chosen_probs = chosen_exponentials / individual_denominators
         else:
             chosen_probs = (chosen_exponentials /
-- 
2.43.0


From d992571de3e0a743c48f09223e9a98bf85acae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:56 +0000
Subject: [PATCH 14/29] fix: allow integer valued design matrices in mixed
 logit models

---
 src/pylogit/mixed_logit_calcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit_calcs.py b/src/pylogit/mixed_logit_calcs.py
index 1973eba..828a70b 100755
--- a/src/pylogit/mixed_logit_calcs.py
+++ b/src/pylogit/mixed_logit_calcs.py
@@ -150,8 +150,9 @@ def create_expanded_design_for_mixing(design,
     # Initialize the expanded design matrix that replicates the columns of the
     # variables that are being mixed over.
     arrays_for_mixing = design[:, mixing_pos]
+    # Note the draws are floats, so the expanded design must hold floats too.
     expanded_design = np.concatenate((design, arrays_for_mixing),
-                                     axis=1).copy()
+                                     axis=1).astype(float)
     design_3d = np.repeat(expanded_design[:, None, :],
                           repeats=num_draws,
                           axis=1)
-- 
2.43.0


From 40ce709ed724306ec4ac271c84243f5e4acb8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 15/29] fix: condition on the correct unit's draws in
 panel_predict regardless of the order of the mixing ids

---
 src/pylogit/mixed_logit.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index e90ba4d..5419544 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -876,7 +876,14 @@ class MixedLogit(base_mcm.MNDC_Model):
 
         # Create the 3D design matrix for those choice situations, using the
         # draws that were just taken from the mixing distributions of interest.
-        past_draw_list = [x[new_unique_mix_id_repeats, :] for x in draw_list]
+        # Note the draws must be in the order in which the repeated mixing units
+        # appear in the past data since past_mappings uses that order.
+        new_id_positions = {mix_id: pos for pos, mix_id in
+                            enumerate(orig_order_unique_ids_new)}
+        past_draw_idx =\
+            [new_id_positions[mix_id] for mix_id in
+             orig_order_unique_ids_old[old_unique_mix_id_repeats]]
+        past_draw_list = [x[past_draw_idx, :] for x in draw_list]
         design_args = (past_design_2d,
                        past_draw_list,
                        self.mixing_pos,
-- 
2.43.0


From 223ef72188fd18d9a8416286afcb06e725a9cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:08 +0000
Subject: [PATCH 16/29] fix: keep constrained parameters fixed, and out of the
 covariance, for logit-type models when the hessian is used

---
 src/pylogit/estimation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/estimation.py b/src/pylogit/estimation.py
index c899fc7..d6bb306 100644
--- a/src/pylogit/estimation.py
+++ b/src/pylogit/estimation.py
@@ -390,7 +390,16 @@ class LogitTypeEstimator(EstimationObj):
                 self.ridge,
                 self.weights]
 
-        return cc.calc_hessian(*args)
+        hess = cc.calc_hessian(*args)
+
+        # Account for the constrained parameters, which must not be moved by
+        # optimization methods that use the hessian and which are not estimated
+        if self.constrained_pos is not None:
+            for idx_val in self.constrained_pos:
+                hess[idx_val, :] = 0
+                hess[:, idx_val] = 0
+                hess[idx_val, idx_val] = -1
+        return hess
 
     def convenience_calc_fisher_approx(self, params):
         """
-- 
2.43.0


From 9cb14a6d248fc091161d940c187ee1a5b0fd8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:44 +0000
Subject: [PATCH 17/29] fix: accept two dimensional parameter arrays with a
 single column in the asymmetric models

---
 src/pylogit/asym_logit.py   | 4 ++--
 src/pylogit/clog_log.py     | 2 +-
 src/pylogit/scobit.py       | 2 +-
 src/pylogit/uneven_logit.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 20d23e9..95b4c86 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -160,7 +160,7 @@ def _convert_eta_to_c(eta, ref_position):
     replace_list.remove(ref_position)
 
     # Initialize an array for the vector of shape parameters, c
-    if len(eta.shape) > 1 and eta.shape[1] > 1:
+    if len(eta.shape) > 1:
         # Get an array of zeros with shape
         # (num_possible_alternatives, num_parameter_samples). This is used when
         # working with samples from a Bayesian posterior distribution
@@ -318,7 +318,7 @@ def _asym_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/clog_log.py b/src/pylogit/clog_log.py
index b4367ac..310af86 100644
--- a/src/pylogit/clog_log.py
+++ b/src/pylogit/clog_log.py
@@ -183,7 +183,7 @@ def _cloglog_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index fca2534..6ef6fc1 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -157,7 +157,7 @@ def _scobit_utility_transform(systematic_utilities,
         needed_idxs = range(intercept_params.shape[0] + 1)
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index a8fcfc3..09ea15a 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -213,7 +213,7 @@ def _uneven_utility_transform(systematic_utilities,
         needed_idxs = range(rows_to_alts.shape[1])
         needed_idxs.remove(intercept_ref_pos)
 
-        if len(intercept_params.shape) > 1 and intercept_params.shape[1] > 1:
+        if len(intercept_params.shape) > 1:
             # Get an array of zeros with shape
             # (num_possible_alternatives, num_parameter_samples)
             all_intercepts = np.zeros((rows_to_alts.shape[1],
-- 
2.43.0


From 7d2b83192d97bf5b6fbdfe0ebb8f662cca8fa60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:16 +0000
Subject: [PATCH 18/29] fix: allow predictions from given parameters with mixed
 logit models that have not been estimated

---
 src/pylogit/base_multinomial_cm_v2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index a096e3e..9d4c3dd 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1745,6 +1745,11 @@ class MNDC_Model(object):
 
         # Make sure each array has the correct number of elements
         num_index_coefs = len(self.ind_var_names)
+        # The names of the mixing variables' spread parameters are only added to
+        # the index variable names when a mixed logit model is estimated.
+        if (self.mixing_vars is not None and
+                not any(['Sigma ' in x for x in self.ind_var_names])):
+            num_index_coefs += len(self.mixing_vars)
 
         check_num_rows_of_parameter_array(param_list[0],
                                           num_index_coefs,
-- 
2.43.0


From 129f1cd40c81f8f17fb8e3da51dd69a9601476bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:27 +0000
Subject: [PATCH 19/29] fix: predict with several columns of parameters in
 scobit models without outside intercepts

---
 src/pylogit/scobit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 6ef6fc1..68f3fec 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -179,6 +179,9 @@ def _scobit_utility_transform(systematic_utilities,
     # Figure out what intercept values correspond to each row of the
     # systematic utilities
     long_intercepts = rows_to_alts.dot(all_intercepts)
+    # Let the intercepts be combined with each column of parameters
+    if len(systematic_utilities.shape) == 2 and long_intercepts.ndim == 1:
+        long_intercepts = long_intercepts[:, None]
 
     # Convert the shape parameters back into their 'natural parametrization'
     natural_shapes = np.exp(shape_params)
-- 
2.43.0


From ff5aefba7ff7bdc17c2a18f994312a0163148140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:48 +0000
Subject: [PATCH 20/29] fix: use only the relevant standard errors for the
 quadratic coefficient in efron_quadratic_coef_abc

---
 src/pylogit/bootstrap_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_abc.py b/src/pylogit/bootstrap_abc.py
index 91a5885..b773d68 100644
--- a/src/pylogit/bootstrap_abc.py
+++ b/src/pylogit/bootstrap_abc.py
@@ -743,7 +743,7 @@ def efron_quadratic_coef_abc(model_object,
     if diff_idx.any():
         quadratic_coef[diff_idx] =\
             ((term_1[diff_idx] - term_2[diff_idx] + term_3[diff_idx]) /
-             denominator)
+             denominator[diff_idx])
     return quadratic_coef
 
 
-- 
2.43.0


From e2d82cfc6a6ab4c43406bd33fe678e2522bda673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:41 +0000
Subject: [PATCH 21/29] fix: predict when the new data lack one of the model's
 alternatives

The mapping to alternatives and the design matrix of the new data were built
from the alternatives in the new data instead of those of the model, so
predictions for data without some alternative failed for models with shape
parameters, outside intercepts or alternative specific coefficients.
---
 src/pylogit/base_multinomial_cm_v2.py | 10 ++++++++--
 src/pylogit/choice_tools.py           | 11 +++++++++--
 src/pylogit/mixed_logit.py            |  4 +++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index 9d4c3dd..d1962f0 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -26,6 +26,7 @@ import pandas as pd
 
 from .choice_tools import create_design_matrix
 from .choice_tools import create_long_form_mappings
+from .choice_tools import create_sparse_mapping
 from .choice_tools import convert_mixing_names_to_positions
 from .choice_tools import get_dataframe_from_data
 from .choice_tools import ensure_specification_cols_are_in_dataframe
@@ -1876,10 +1877,14 @@ class MNDC_Model(object):
         # Get the new column of alternative IDs and get the new design matrix
         new_alt_IDs = dataframe[self.alt_id_col].values
 
+        # Note that the new data need not contain all of the alternatives
+        all_alt_IDs = np.union1d(self.alt_IDs, new_alt_IDs)
+
         new_design_res = create_design_matrix(dataframe,
                                               self.specification,
                                               self.alt_id_col,
-                                              names=self.name_spec)
+                                              names=self.name_spec,
+                                              alternatives=all_alt_IDs)
 
         new_design = new_design_res[0]
 
@@ -1892,7 +1897,8 @@ class MNDC_Model(object):
                                                 mix_id_col=self.mixing_id_col)
 
         new_rows_to_obs = mapping_res["rows_to_obs"]
-        new_rows_to_alts = mapping_res["rows_to_alts"]
+        new_rows_to_alts = create_sparse_mapping(new_alt_IDs,
+                                                 unique_ids=all_alt_IDs)
         new_chosen_to_obs = mapping_res["chosen_row_to_obs"]
         new_rows_to_nests = mapping_res["rows_to_nests"]
         new_rows_to_mixers = mapping_res["rows_to_mixers"]
diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index d21ce5d..58a7f6b 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -586,7 +586,8 @@ def ensure_ridge_is_scalar_or_none(ridge):
 def create_design_matrix(long_form,
                          specification_dict,
                          alt_id_col,
-                         names=None):
+                         names=None,
+                         alternatives=None):
     """
     Parameters
     ----------
@@ -624,6 +625,10 @@ def create_design_matrix(long_form,
               There should be one string the value in names per item in the
               value in `specification_dict`.
         Default == None.
+    alternatives : 1D ndarray, optional.
+        The ids of all possible alternatives. Needed when some of them may not
+        appear in `long_form`. If None, the alternatives are those that appear
+        in `long_form[alt_id_col]`. Default == None.
 
     Returns
     -------
@@ -645,7 +650,9 @@ def create_design_matrix(long_form,
     ensure_specification_cols_are_in_dataframe(specification_dict, long_form)
 
     # Find out what and how many possible alternatives there are
-    unique_alternatives = np.sort(long_form[alt_id_col].unique())
+    if alternatives is None:
+        alternatives = long_form[alt_id_col].values
+    unique_alternatives = np.unique(alternatives)
     num_alternatives = len(unique_alternatives)
 
     check_type_and_values_of_specification_dict(specification_dict,
diff --git a/src/pylogit/mixed_logit.py b/src/pylogit/mixed_logit.py
index 5419544..1d79c42 100755
--- a/src/pylogit/mixed_logit.py
+++ b/src/pylogit/mixed_logit.py
@@ -774,7 +774,9 @@ class MixedLogit(base_mcm.MNDC_Model):
         new_design_res = create_design_matrix(dataframe,
                                               self.specification,
                                               self.alt_id_col,
-                                              names=self.name_spec)
+                                              names=self.name_spec,
+                                              alternatives=np.union1d(
+                                                  self.alt_IDs, new_alt_IDs))
         new_design_2d = new_design_res[0]
 
         # Get the new mappings between the alternatives and observations
-- 
2.43.0


From 2990d58848a836be58f5416b84214a83af67cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 22/29] fix: keep the data type of observation ids in bootstrap
 samples

Ids were stored as floats, so 64-bit ids beyond 2**53 were drawn as other ids.
---
 src/pylogit/bootstrap_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/bootstrap_sampler.py b/src/pylogit/bootstrap_sampler.py
index d1db4d1..08fe37c 100644
--- a/src/pylogit/bootstrap_sampler.py
+++ b/src/pylogit/bootstrap_sampler.py
@@ -146,7 +146,8 @@ def create_cross_sectional_bootstrap_samples(obs_id_array,
         get_num_obs_choosing_each_alternative(chosen_alts_to_obs_ids)
 
     # Initialize the array that will store the observation ids for each sample
-    ids_per_sample = np.empty((num_samples, tot_num_obs), dtype=float)
+    ids_per_sample = np.empty((num_samples, tot_num_obs),
+                              dtype=obs_id_array.dtype)
 
     if seed is not None:
         # Check the validity of the seed argument.
-- 
2.43.0


From ee6dfee2ad314479842ed6d7e2062f2ab1223918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 23/29] fix: refuse missing (NaN) weights

NaN is not negative, so the check let it through and estimation went on.
---
 src/pylogit/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/estimation.py b/src/pylogit/estimation.py
index d6bb306..8df8eea 100644
--- a/src/pylogit/estimation.py
+++ b/src/pylogit/estimation.py
@@ -26,7 +26,7 @@ def ensure_positivity_and_length_of_weights(weights, data):
     elif weights.size != data.shape[0]:
         msg = '`weights` must have the same number of rows as `data`.'
         raise ValueError(msg)
-    elif (weights < 0).any():
+    elif not (weights >= 0).all():
         msg = '`weights` MUST be >= 0.'
         raise ValueError(msg)
     return None
-- 
2.43.0


From e91c37c5b543627b119a66de3bd370c343b60344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 24/29] fix: compare observation ids instead of subtracting
 them

Differences of unsigned or narrow integers wrap around, so data with
non-contiguous choice situations passed the contiguity check.
---
 src/pylogit/choice_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index 58a7f6b..f9a4e9e 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1458,7 +1458,7 @@ def ensure_contiguity_in_observation_rows(obs_id_vector):
     """
     # Check that the choice situation id for each row is larger than or equal
     # to the choice situation id of the preceding row.
-    contiguity_check_array = (obs_id_vector[1:] - obs_id_vector[:-1]) >= 0
+    contiguity_check_array = obs_id_vector[1:] >= obs_id_vector[:-1]
     if not contiguity_check_array.all():
         problem_ids = obs_id_vector[np.where(~contiguity_check_array)]
         msg_1 = "All rows pertaining to a given choice situation must be "
-- 
2.43.0


From 3478cac914a1cbbf567188b58e841156b65e0be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:50 +0000
Subject: [PATCH 25/29] fix: accept availability columns of any numeric type in
 convert_wide_to_long

With float availability, observation ids were multiplied as floats (large ids
were altered) and text variables could not be expanded.
---
 src/pylogit/choice_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pylogit/choice_tools.py b/src/pylogit/choice_tools.py
index f9a4e9e..cf3440b 100644
--- a/src/pylogit/choice_tools.py
+++ b/src/pylogit/choice_tools.py
@@ -1637,7 +1637,8 @@ def convert_wide_to_long(wide_data,
     #####
     # Determine the various availability values for each observation
     # Note the columns need to be in the same order as `sorted_alt_ids`.
-    wide_availability_values = wide_data[sorted_availability_cols].values
+    wide_availability_values =\
+        wide_data[sorted_availability_cols].values.astype(int)
     new_obs_id_col = (wide_availability_values *
                       wide_data[obs_id_col].values[:, None]).ravel()
     # Make sure the observation id column has an integer data type
-- 
2.43.0


From aa9724080d6e8165f5ceba3a86b6bc9a8579845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:48 +0000
Subject: [PATCH 26/29] fix: keep accepting missing (NaN) weights, as ABC
 intervals rely on them

Reverts ee6dfee: for a parameter that is held fixed, the ABC refits get NaN
weights (its standard error is zero), so refusing them made the intervals of
such models fail.
---
 src/pylogit/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pylogit/estimation.py b/src/pylogit/estimation.py
index 8df8eea..d6bb306 100644
--- a/src/pylogit/estimation.py
+++ b/src/pylogit/estimation.py
@@ -26,7 +26,7 @@ def ensure_positivity_and_length_of_weights(weights, data):
     elif weights.size != data.shape[0]:
         msg = '`weights` must have the same number of rows as `data`.'
         raise ValueError(msg)
-    elif not (weights >= 0).all():
+    elif (weights < 0).any():
         msg = '`weights` MUST be >= 0.'
         raise ValueError(msg)
     return None
-- 
2.43.0


From f0381accbccd343f25c92c5fd578c77d8a2c27fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:45 +0000
Subject: [PATCH 27/29] fix: name shape parameters and outside intercepts by
 default when the model is built

Models built without shape_names or intercept_names (the documented
default) refused every valid parameter list in predict and could not be
bootstrapped, since the number of names is what parameter arrays are
checked against and split by.
---
 src/pylogit/asym_logit.py             | 6 ++++++
 src/pylogit/base_multinomial_cm_v2.py | 6 ++++++
 src/pylogit/scobit.py                 | 6 ++++++
 src/pylogit/uneven_logit.py           | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/src/pylogit/asym_logit.py b/src/pylogit/asym_logit.py
index 95b4c86..538564d 100644
--- a/src/pylogit/asym_logit.py
+++ b/src/pylogit/asym_logit.py
@@ -908,6 +908,12 @@ class MNAL(base_mcm.MNDC_Model):
                                    shape_names=shape_names,
                                    model_type=display_name_dict["Asym"])
 
+        # Use default names for the shape parameters if none were passed
+        if self.shape_names is None:
+            num_shapes = np.unique(self.alt_IDs).size - 1
+            self.shape_names = ["Shape_{}".format(x)
+                                for x in range(1, num_shapes + 1)]
+
         # Store the utility transform function
         self.utility_transform = partial(_asym_utility_transform,
                                          shape_ref_position=shape_ref_pos,
diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index d1962f0..f5b72c9 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -831,6 +831,12 @@ class MNDC_Model(object):
 
                 check_length_of_shape_or_intercept_names(*length_args)
 
+        # Use default names for the outside intercepts if none were passed. The
+        # number of names determines how parameter arrays are checked and split
+        if intercept_names is None and intercept_ref_pos is not None:
+            intercept_names = ["Outside_ASC_{}".format(x)
+                               for x in range(1, len(all_ids))]
+
         ##########
         # Check for validity of the nest_spec argument if necessary
         ##########
diff --git a/src/pylogit/scobit.py b/src/pylogit/scobit.py
index 68f3fec..f04a68e 100644
--- a/src/pylogit/scobit.py
+++ b/src/pylogit/scobit.py
@@ -719,6 +719,12 @@ class MNSL(base_mcm.MNDC_Model):
                                    shape_names=shape_names,
                                    model_type=display_name_dict["Scobit"])
 
+        # Use default names for the shape parameters if none were passed
+        if self.shape_names is None:
+            num_shapes = np.unique(self.alt_IDs).size
+            self.shape_names = ["Shape_{}".format(x)
+                                for x in range(1, num_shapes + 1)]
+
         ##########
         # Store the utility transform function
         ##########
diff --git a/src/pylogit/uneven_logit.py b/src/pylogit/uneven_logit.py
index 09ea15a..3a7845f 100644
--- a/src/pylogit/uneven_logit.py
+++ b/src/pylogit/uneven_logit.py
@@ -718,6 +718,12 @@ class MNUL(base_mcm.MNDC_Model):
                                    shape_names=shape_names,
                                    model_type=display_name_dict["Uneven"])
 
+        # Use default names for the shape parameters if none were passed
+        if self.shape_names is None:
+            num_shapes = np.unique(self.alt_IDs).size
+            self.shape_names = ["Shape_{}".format(x)
+                                for x in range(1, num_shapes + 1)]
+
         # Store the utility transform function
         self.utility_transform = partial(_uneven_utility_transform,
                                          intercept_ref_pos=intercept_ref_pos)
-- 
2.43.0


From f2f53124dad8df17c1ce591bc2c0ece214ebaaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:29 +0000
Subject: [PATCH 28/29] fix: guard chosen probabilities against underflow like
 the long format ones

calc_probabilities replaced long format probabilities that underflow by
the smallest positive value but returned zero for the same rows in the
chosen probabilities, so that log-likelihoods computed from them were
infinite.
---
 src/pylogit/choice_calcs.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pylogit/choice_calcs.py b/src/pylogit/choice_calcs.py
index 696bc1a..b5158f5 100644
--- a/src/pylogit/choice_calcs.py
+++ b/src/pylogit/choice_calcs.py
@@ -172,14 +172,10 @@ def calc_probabilities(beta,
     if chosen_row_to_obs is None:
         chosen_probs = None
     else:
-        # chosen_probs will be of shape (num_observations,)
-        chosen_exponentials = np.asarray(
-                         chosen_row_to_obs.transpose().dot(long_exponentials))
-        if has_multiple_cols:
-            chosen_probs = chosen_exponentials / individual_denominators
-        else:
-            chosen_probs = (chosen_exponentials /
-                            individual_denominators).ravel()
+        # chosen_probs will be of shape (num_observations,). Use long_probs so
+        # that probabilities that underflow are guarded against here as well
+        chosen_probs = np.asarray(
+                         chosen_row_to_obs.transpose().dot(long_probs))
 
     # Return the long form and chosen probabilities if desired
     if return_long_probs and chosen_probs is not None:
-- 
2.43.0


From 6a5feed0e13be8507215243ca820e126ce076e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:05 +0000
Subject: [PATCH 29/29] fix: mixed logit models with coefficient names that
 contain 'Sigma '

---
 src/pylogit/base_multinomial_cm_v2.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pylogit/base_multinomial_cm_v2.py b/src/pylogit/base_multinomial_cm_v2.py
index f5b72c9..4d77af4 100644
--- a/src/pylogit/base_multinomial_cm_v2.py
+++ b/src/pylogit/base_multinomial_cm_v2.py
@@ -1404,13 +1404,21 @@ class MNDC_Model(object):
         # an error will be raised when creating the coefs series because we
         # will have added the mixing variables twice. The condition below
         # should prevent this error.
-        already_included = any(["Sigma " in x for x in self.ind_var_names])
-
-        if self.mixing_vars is not None and not already_included:
+        if (self.mixing_vars is not None and
+                not self._has_mixing_variable_names()):
             new_ind_var_names = ["Sigma " + x for x in self.mixing_vars]
             self.ind_var_names += new_ind_var_names
         return None
 
+    def _has_mixing_variable_names(self):
+        """
+        Determine whether the names of the mixing variables' spread parameters
+        have been added to the list of individual variables, which otherwise
+        has one name per column of the design matrix. Note that users may
+        choose coefficient names that look like those of spread parameters.
+        """
+        return len(self.ind_var_names) > self.design.shape[1]
+
     def store_fit_results(self, results_dict):
         """
         Parameters
@@ -1755,7 +1763,7 @@ class MNDC_Model(object):
         # The names of the mixing variables' spread parameters are only added to
         # the index variable names when a mixed logit model is estimated.
         if (self.mixing_vars is not None and
-                not any(['Sigma ' in x for x in self.ind_var_names])):
+                not self._has_mixing_variable_names()):
             num_index_coefs += len(self.mixing_vars)
 
         check_num_rows_of_parameter_array(param_list[0],
-- 
2.43.0

