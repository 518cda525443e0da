From 59ea9b35e4b20ee3762653fb9043d7cc168c2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 01/30] fix: repeat observed factors for every mixture
 component in sigma points

---
 skillmodels/kalman_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/kalman_filters.py b/skillmodels/kalman_filters.py
index c84a73a..a509dd0 100644
--- a/skillmodels/kalman_filters.py
+++ b/skillmodels/kalman_filters.py
@@ -261,7 +261,7 @@ def _calculate_sigma_points(states, upper_chols, scaling_factor, observed_factor
     sigma_points = sigma_points.at[:, :, 1 : n_fac + 1].add(scaled_upper_chols)
     sigma_points = sigma_points.at[:, :, n_fac + 1 :].add(-scaled_upper_chols)
 
-    observed_part = observed_factors.repeat(n_sigma, axis=0).reshape(
+    observed_part = observed_factors.repeat(n_mixtures * n_sigma, axis=0).reshape(
         n_obs, n_mixtures, n_sigma, n_observed
     )
 
-- 
2.43.0


From 63a9a887deb0440426684dcee6dac1be3d5441c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 02/30] fix: label debug data with the individual if there are
 several mixtures

---
 skillmodels/process_debug_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index b923d93..3b7abce 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -93,9 +93,10 @@ def process_debug_data(debug_data, model):
 def _create_post_update_states(filtered_states, factors, update_info):
     to_concat = []
     for (period, meas), data in zip(update_info.index, filtered_states):
+        n_obs, n_mixtures = data.shape[:2]
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
 
@@ -164,7 +165,7 @@ def _process_residuals(residuals, update_info):
         df = pd.DataFrame(data.reshape(-1, 1), columns=["residual"])
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
-        df["id"] = np.arange(len(df))
+        df["id"] = np.arange(n_obs).repeat(n_mixtures)
         df["measurement"] = meas
         to_concat.append(df)
     return pd.concat(to_concat)
-- 
2.43.0


From b3d4734274947b1df4cb222fd3ae1bd49034c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 03/30] fix: anchoring outcomes can be listed in any order

---
 skillmodels/process_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index b573870..90cebc1 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -262,7 +262,10 @@ def _get_update_info(model_dict, dimensions, labels, anchoring_info):
             for meas in measurements[factor][period]:
                 uinfo.loc[(period, meas), factor] = True
                 uinfo.loc[(period, meas), "purpose"] = "measurement"
-        for factor in anchoring_info["factors"]:
+        # the anchoring parameters are parsed in the order of the latent factors
+        for factor in labels["latent_factors"]:
+            if factor not in anchoring_info["factors"]:
+                continue
             outcome = anchoring_info["outcomes"][factor]
             name = f"{outcome}_{factor}"
             uinfo.loc[(period, name), factor] = True
-- 
2.43.0


From 054cf57f57ea81a040ac1c2aebb8167f1a4247fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 04/30] fix: models with a single period

---
 skillmodels/constraints.py         |  4 +++-
 skillmodels/likelihood_function.py | 15 ++++++++++++++-
 skillmodels/parse_params.py        |  6 ++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 6e4ae29..9bea4d2 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -64,7 +64,9 @@ def add_bounds(params_df, bounds_distance=0.0):
         if "lower_bound" not in df.columns:
             df["lower_bound"] = -np.inf
         df.loc["meas_sds", "lower_bound"] = bounds_distance
-        df.loc["shock_sds", "lower_bound"] = bounds_distance
+        # models with just one period do not have shock_sds
+        if "shock_sds" in df.index:
+            df.loc["shock_sds", "lower_bound"] = bounds_distance
 
         cholcov_index = df.query("category == 'initial_cholcovs'").index.tolist()
         ind_tups = [tup for tup in cholcov_index if _is_diagonal_entry(tup)]
diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index b846209..1690dc0 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -343,6 +343,19 @@ def _scan_body(
         update_kwargs,
     )
 
+    info = {"loglikes": loglikes, **info}
+
+    # ==================================================================================
+    # there is nothing to predict in models with just one period
+    # ==================================================================================
+    if len(pardict["shock_sds"]) == 0:
+        new_state = {
+            "states": states,
+            "upper_chols": upper_chols,
+            "log_mixture_weights": log_mixture_weights,
+        }
+        return new_state, {**info, "states": states}
+
     # ==================================================================================
     # create arguments needed for predict step
     # ==================================================================================
@@ -378,7 +391,7 @@ def _scan_body(
         "log_mixture_weights": log_mixture_weights,
     }
 
-    static_out = {"loglikes": loglikes, **info, "states": filtered_states}
+    static_out = {**info, "states": filtered_states}
     return new_state, static_out
 
 
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 382dd30..9183e40 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -202,8 +202,10 @@ def _get_transition_params(params, info, labels):
     t_info = info["transition"]
     n_periods = len(labels["periods"])
     for factor in labels["latent_factors"]:
-        ilocs = t_info[factor]
-        trans_params[factor] = params[ilocs].reshape(n_periods - 1, -1)
+        flat = params[t_info[factor]]
+        # the number of params cannot be inferred if there are no transitions
+        n_params = flat.size // max(n_periods - 1, 1)
+        trans_params[factor] = flat.reshape(n_periods - 1, n_params)
     return trans_params
 
 
-- 
2.43.0


From 9883987ae4f5a0bac792c21b5d2272f5d67f6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 05/30] fix: estimation_options are optional

---
 skillmodels/process_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 90cebc1..d2ae086 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -75,7 +75,7 @@ def get_dimensions(model_dict):
         "n_periods": max(all_n_periods),
         # plus 1 for the constant
         "n_controls": len(model_dict.get("controls", [])) + 1,
-        "n_mixtures": model_dict["estimation_options"].get("n_mixtures", 1),
+        "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
     }
     dims["n_all_factors"] = dims["n_latent_factors"] + dims["n_observed_factors"]
     return dims
-- 
2.43.0


From f2b6918b18f1a6844dd5d45d0e8b7891265abf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 06/30] fix: ignore unused index levels when enumerating ids
 and periods

---
 skillmodels/process_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9222005..baeb86e 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -61,6 +61,7 @@ def pre_process_data(df, periods):
 
     """
     df = df.copy(deep=True).sort_index()
+    df.index = df.index.remove_unused_levels()
     df["__old_id__"] = df.index.get_level_values(0)
     df["__old_period__"] = df.index.get_level_values(1)
 
-- 
2.43.0


From 19977ef0c8c2ef95d0187dd799c58cfa80164137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 07/30] fix: keep observed factors of periods with missing
 controls

---
 skillmodels/process_data.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index baeb86e..9f36688 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -34,7 +34,9 @@ def process_data(df, labels, update_info, anchoring_info, purpose="estimation"):
     df = _add_copies_of_anchoring_outcome(df, anchoring_info)
     _check_data(df, update_info, labels, purpose=purpose)
     n_obs = int(len(df) / len(labels["periods"]))
-    df = _handle_controls_with_missings(df, labels["controls"], update_info)
+    df = _handle_controls_with_missings(
+        df, labels["controls"], update_info, labels["observed_factors"]
+    )
     if purpose == "estimation":
         meas_data = _generate_measurements_array(df, update_info, n_obs)
     control_data = _generate_controls_array(df, labels, n_obs)
@@ -117,7 +119,7 @@ def _check_data(df, update_info, labels, purpose):
         raise ValueError(var_report)
 
 
-def _handle_controls_with_missings(df, controls, update_info):
+def _handle_controls_with_missings(df, controls, update_info, observed_factors=()):
     df = df.copy(deep=True)
     periods = update_info.index.get_level_values(0).unique().tolist()
     problematic_index = df.index[:0]
@@ -133,7 +135,9 @@ def _handle_controls_with_missings(df, controls, update_info):
         msg = "Set measurements to NaN because there are NaNs in the controls for:\n{}"
         msg = msg.format(list(map(tuple, old_names.to_numpy().tolist())))
         warnings.warn(msg)
-        df.loc[problematic_index] = np.nan
+        # the observed factors are still needed in the transition equations
+        to_delete = [col for col in df.columns if col not in observed_factors]
+        df.loc[problematic_index, to_delete] = np.nan
     return df
 
 
-- 
2.43.0


From 92724dd3f0807a769483f4d788c07c7ef80be630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:56 +0000
Subject: [PATCH 08/30] fix: simulate periods without measurements

---
 skillmodels/simulate_data.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/skillmodels/simulate_data.py b/skillmodels/simulate_data.py
index 1b662fb..7bd2430 100644
--- a/skillmodels/simulate_data.py
+++ b/skillmodels/simulate_data.py
@@ -14,6 +14,7 @@ from skillmodels.parse_params import create_parsing_info
 from skillmodels.parse_params import parse_params
 from skillmodels.process_data import process_data
 from skillmodels.process_debug_data import create_state_ranges
+from skillmodels.process_model import get_period_measurements
 from skillmodels.process_model import process_model
 
 
@@ -237,16 +238,19 @@ def _simulate_dataset(
     observed_data_by_period = []
 
     for t in range(n_periods):
-        meas = pd.DataFrame(
-            data=measurements_from_states(
-                latent_states[t],
-                control_data[t],
-                loadings_df.loc[t].to_numpy(),
-                control_params_df.loc[t].to_numpy(),
-                meas_sds.loc[t].to_numpy().flatten(),
-            ),
-            columns=loadings_df.loc[t].index,
-        )
+        if get_period_measurements(update_info, t):
+            meas = pd.DataFrame(
+                data=measurements_from_states(
+                    latent_states[t],
+                    control_data[t],
+                    loadings_df.loc[t].to_numpy(),
+                    control_params_df.loc[t].to_numpy(),
+                    meas_sds.loc[t].to_numpy().flatten(),
+                ),
+                columns=loadings_df.loc[t].index,
+            )
+        else:
+            meas = pd.DataFrame(index=np.arange(n_obs))
         meas["period"] = t
         observed_data_by_period.append(meas)
 
-- 
2.43.0


From 2a7cd9f37ba207a99701cc780c7918cb875b87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:56 +0000
Subject: [PATCH 09/30] fix: predict through periods without measurements

---
 skillmodels/likelihood_function.py | 52 +++++++++++++++++++++++++++---
 skillmodels/process_debug_data.py  | 13 +++-----
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index 1690dc0..44cef0c 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -71,7 +71,11 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
 
     update_info = model["update_info"]
     is_measurement_iteration = (update_info["purpose"] == "measurement").to_numpy()
-    _periods = pd.Series(update_info.index.get_level_values("period").to_numpy())
+    iteration_to_update, _periods = _get_iterations(update_info, model["labels"])
+    is_update_iteration = iteration_to_update >= 0
+    is_measurement_iteration = (
+        is_measurement_iteration[iteration_to_update] | ~is_update_iteration
+    )
     is_predict_iteration = ((_periods - _periods.shift(-1)) == -1).to_numpy()
     last_period = model["labels"]["periods"][-1]
     # iteration_to_period is used as an indexer to loop over arrays of different lengths
@@ -94,6 +98,7 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
         is_measurement_iteration=is_measurement_iteration,
         is_predict_iteration=is_predict_iteration,
         iteration_to_period=iteration_to_period,
+        iteration_to_update=iteration_to_update,
         observed_factors=observed_factors,
     )
 
@@ -172,6 +177,36 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
     return out
 
 
+def _get_iterations(update_info, labels):
+    """Determine the iterations of the likelihood function.
+
+    There is one iteration per update. Periods without any update get one iteration that
+    does not correspond to an update. It is needed to get to the next period.
+
+    Args:
+        update_info (pandas.DataFrame): DataFrame with one row per Kalman update needed
+            in the likelihood function. See :ref:`update_info`.
+        labels (dict): Dict of lists with labels for the model quantities like
+            factors, periods, controls, stagemap and stages. See :ref:`labels`
+
+    Returns:
+        numpy.ndarray: The position of the update of each iteration. -1 if there is no
+            update.
+        pandas.Series: The period of each iteration.
+
+    """
+    update_periods = update_info.index.get_level_values("period").to_numpy()
+    updates, periods = [], []
+    for period in labels["periods"]:
+        in_period = np.flatnonzero(update_periods == period).tolist()
+        if len(in_period) == 0:
+            in_period = [-1]
+        updates += in_period
+        periods += [period] * len(in_period)
+
+    return np.array(updates), pd.Series(periods)
+
+
 def _log_likelihood_jax(
     params,
     parsing_info,
@@ -186,6 +221,7 @@ def _log_likelihood_jax(
     is_measurement_iteration,
     is_predict_iteration,
     iteration_to_period,
+    iteration_to_update,
     debug,
     observed_factors,
 ):
@@ -243,12 +279,17 @@ def _log_likelihood_jax(
         "log_mixture_weights": log_mixture_weights,
     }
 
+    is_update = iteration_to_update >= 0
+
     loop_args = {
         "period": iteration_to_period,
-        "loadings": pardict["loadings"],
-        "control_params": pardict["controls"],
-        "meas_sds": pardict["meas_sds"],
-        "measurements": measurements,
+        "loadings": pardict["loadings"][iteration_to_update],
+        "control_params": pardict["controls"][iteration_to_update],
+        "meas_sds": pardict["meas_sds"][iteration_to_update],
+        # missing measurements make sure that nothing happens if there is no update
+        "measurements": jnp.where(
+            is_update.reshape(-1, 1), measurements[iteration_to_update], jnp.nan
+        ),
         "is_measurement_iteration": is_measurement_iteration,
         "is_predict_iteration": is_predict_iteration,
     }
@@ -265,6 +306,7 @@ def _log_likelihood_jax(
     )
 
     carry, static_out = lax.scan(_body, carry, loop_args)
+    static_out = {key: arr[is_update] for key, arr in static_out.items()}
     loglikes = static_out["loglikes"]
 
     # clip contributions before aggregation to preserve as much information as
diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index 3b7abce..52f2f16 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -126,17 +126,14 @@ def _create_filtered_states(filtered_states, log_mixture_weights, update_info, f
 
     agg_states = (filtered_states * weights.reshape(*weights.shape, 1)).sum(axis=-2)
 
-    keep = []
-    for i, (period, measurement) in enumerate(update_info.index):
-        last_measurement = update_info.query(
-            f"purpose == 'measurement' & period == {period}"
-        ).index[-1][1]
+    is_measurement = (update_info["purpose"] == "measurement").to_numpy()
+    periods = update_info.index.get_level_values("period").to_numpy()
 
-        if measurement == last_measurement:
-            keep.append(i)
+    # position of the last measurement of each period that has any measurements
+    keep = {periods[i]: i for i in np.flatnonzero(is_measurement)}
 
     to_concat = []
-    for period, i in enumerate(keep):
+    for period, i in keep.items():
         df = pd.DataFrame(data=agg_states[i], columns=factors)
         df["period"] = period
         df["id"] = np.arange(len(df))
-- 
2.43.0


From ab98b7eb68d6e838821216672ba21bcb7e109ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:06 +0000
Subject: [PATCH 10/30] fix: stage constraints of models without transition
 parameters

---
 skillmodels/constraints.py         | 32 ++++++++++++++++++++----------
 skillmodels/likelihood_function.py |  1 +
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/skillmodels/constraints.py b/skillmodels/constraints.py
index 9bea4d2..52e1753 100644
--- a/skillmodels/constraints.py
+++ b/skillmodels/constraints.py
@@ -6,7 +6,14 @@ import numpy as np
 import skillmodels.transition_functions as tf
 
 
-def get_constraints(dimensions, labels, anchoring_info, update_info, normalizations):
+def get_constraints(
+    dimensions,
+    labels,
+    anchoring_info,
+    update_info,
+    normalizations,
+    has_transition_params=True,
+):
     """Generate the estimagic constraints implied by the model specification.
 
     Args:
@@ -20,6 +27,7 @@ def get_constraints(dimensions, labels, anchoring_info, update_info, normalizati
             in the likelihood function. See :ref:`update_info`.
         normalizations (dict): Nested dictionary with information on normalized factor
             loadings and intercepts for each factor. See :ref:`normalizations`.
+        has_transition_params (bool): Whether any transition function has parameters.
 
     Returns:
         list: List of estimagic compatible constraints.
@@ -29,7 +37,9 @@ def get_constraints(dimensions, labels, anchoring_info, update_info, normalizati
 
     constr += _get_normalization_constraints(normalizations, labels["latent_factors"])
     constr += _get_mixture_weights_constraints(dimensions["n_mixtures"])
-    constr += _get_stage_constraints(labels["stagemap"], labels["stages"])
+    constr += _get_stage_constraints(
+        labels["stagemap"], labels["stages"], has_transition_params
+    )
     constr += _get_constant_factors_constraints(labels)
     constr += _get_initial_states_constraints(
         dimensions["n_mixtures"], labels["latent_factors"]
@@ -152,12 +162,13 @@ def _get_mixture_weights_constraints(n_mixtures):
         return [{"loc": "mixture_weights", "type": "probability", "description": msg}]
 
 
-def _get_stage_constraints(stagemap, stages):
+def _get_stage_constraints(stagemap, stages, has_transition_params=True):
     """Equality constraints for transition and shock parameters within stages.
 
     Args:
         stagemap (list): map periods to stages
         stages (list): stages
+        has_transition_params (bool): Whether any transition function has parameters.
     Returns:
         constrainst (list)
 
@@ -175,13 +186,14 @@ def _get_stage_constraints(stagemap, stages):
         if len(stage_periods) > 1:
             locs_trans = [("transition", p) for p in stage_periods]
             locs_q = [("shock_sds", p) for p in stage_periods]
-            constraints.append(
-                {
-                    "locs": locs_trans,
-                    "type": "pairwise_equality",
-                    "description": msg.format(stage),
-                }
-            )
+            if has_transition_params:
+                constraints.append(
+                    {
+                        "locs": locs_trans,
+                        "type": "pairwise_equality",
+                        "description": msg.format(stage),
+                    }
+                )
             constraints.append(
                 {
                     "locs": locs_q,
diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index 44cef0c..4a6ec62 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -157,6 +157,7 @@ def get_maximization_inputs(model_dict, data, jacobian_type="jacrev"):
         anchoring_info=model["anchoring"],
         update_info=model["update_info"],
         normalizations=model["normalizations"],
+        has_transition_params="transition" in p_index.get_level_values("category"),
     )
 
     params_template = pd.DataFrame(columns=["value"], index=p_index)
-- 
2.43.0


From ee7d96bb841d08a4caa1e29f40e1dbd48a5f5c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:50 +0000
Subject: [PATCH 11/30] fix: remove_controls from models without controls

---
 skillmodels/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index 03994df..b8de7b4 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -157,7 +157,7 @@ def remove_controls(controls, model_dict, params=None):
 
     """
     out = deepcopy(model_dict)
-    out["controls"] = _remove_from_list(out["controls"], controls)
+    out["controls"] = _remove_from_list(out.get("controls", []), controls)
     if out["controls"] == []:
         out = _remove_from_dict(out, "controls")
 
-- 
2.43.0


From c97043856f8e2f8ca11dd88f5bf2c8ee18691c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:50 +0000
Subject: [PATCH 12/30] fix: reduce_n_periods does not share normalizations
 with its input

---
 skillmodels/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/utilities.py b/skillmodels/utilities.py
index b8de7b4..8b3b87e 100644
--- a/skillmodels/utilities.py
+++ b/skillmodels/utilities.py
@@ -241,7 +241,7 @@ def reduce_n_periods(model_dict, new_n_periods, params=None):
             out["factors"][factor]["measurements"], new_n_periods
         )
 
-        norminfo = model_dict["factors"][factor].get("normalizations", {})
+        norminfo = out["factors"][factor].get("normalizations", {})
         if "loadings" in norminfo:
             out["factors"][factor]["normalizations"][
                 "loadings"
-- 
2.43.0


From 38dc9241d5f80dbc8cd573c60b977b981eeb5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:19 +0000
Subject: [PATCH 13/30] fix: data can contain a variable that is called period

---
 skillmodels/process_data.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 9f36688..2489be8 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -93,7 +93,7 @@ def _add_copies_of_anchoring_outcome(df, anchoring_info):
 def _check_data(df, update_info, labels, purpose):
     var_report = pd.DataFrame(index=update_info.index[:0], columns=["problem"])
     for period in labels["periods"]:
-        period_data = df.query(f"period == {period}")
+        period_data = _get_period_data(df, period)
         for cont in labels["controls"]:
             if cont not in period_data.columns or period_data[cont].isnull().all():
                 var_report.loc[(period, cont), "problem"] = "Variable is missing"
@@ -124,7 +124,7 @@ def _handle_controls_with_missings(df, controls, update_info, observed_factors=(
     periods = update_info.index.get_level_values(0).unique().tolist()
     problematic_index = df.index[:0]
     for period in periods:
-        period_data = df.query(f"period == {period}")
+        period_data = _get_period_data(df, period)
         control_data = period_data[controls]
         meas_data = period_data[get_period_measurements(update_info, period)]
         problem = control_data.isnull().any(axis=1) & meas_data.notnull().any(axis=1)
@@ -144,21 +144,26 @@ def _handle_controls_with_missings(df, controls, update_info, observed_factors=(
 def _generate_measurements_array(df, update_info, n_obs):
     arr = np.zeros((len(update_info), n_obs))
     for k, (period, var) in enumerate(update_info.index):
-        arr[k] = df.query(f"period == {period}")[var].to_numpy()
+        arr[k] = _get_period_data(df, period)[var].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_controls_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["controls"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[labels["controls"]].to_numpy()
+        arr[period] = _get_period_data(df, period)[labels["controls"]].to_numpy()
     return jnp.array(arr)
 
 
 def _generate_observed_factor_array(df, labels, n_obs):
     arr = np.zeros((len(labels["periods"]), n_obs, len(labels["observed_factors"])))
     for period in labels["periods"]:
-        arr[period] = df.query(f"period == {period}")[
+        arr[period] = _get_period_data(df, period)[
             labels["observed_factors"]
         ].to_numpy()
     return jnp.array(arr)
+
+
+def _get_period_data(df, period):
+    # query would not work if there is a variable that is called period
+    return df[df.index.get_level_values("period") == period]
-- 
2.43.0


From 30035d29fb1ddce4d6ecd7a1c4baea20313c8f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:46 +0000
Subject: [PATCH 14/30] fix: enumerate ids and periods in sorted order if there
 are unused index levels

---
 skillmodels/process_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skillmodels/process_data.py b/skillmodels/process_data.py
index 2489be8..18f3cc6 100644
--- a/skillmodels/process_data.py
+++ b/skillmodels/process_data.py
@@ -63,14 +63,14 @@ def pre_process_data(df, periods):
 
     """
     df = df.copy(deep=True).sort_index()
-    df.index = df.index.remove_unused_levels()
     df["__old_id__"] = df.index.get_level_values(0)
     df["__old_period__"] = df.index.get_level_values(1)
 
     # replace existing codes for periods and
-    df.index.names = ["id", "period"]
+    codes = []
     for level in [0, 1]:
-        df.index = df.index.set_levels(range(len(df.index.levels[level])), level=level)
+        codes.append(pd.factorize(df.index.get_level_values(level), sort=True)[0])
+    df.index = pd.MultiIndex.from_arrays(codes, names=["id", "period"])
 
     # create new index
     ids = sorted(df.index.get_level_values("id").unique())
-- 
2.43.0


From 031b68c1d39be6aac11c5044341b2ebddcc58f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:47 +0000
Subject: [PATCH 15/30] fix: report wrongly typed anchoring options as invalid
 specification

Outcomes that are not iterable raised a TypeError before the model check and a
non-boolean ignore_constant_when_anchoring was silently accepted.
---
 skillmodels/check_model.py   | 2 ++
 skillmodels/process_model.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 06dea4f..4b743a3 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -72,6 +72,8 @@ def _check_anchoring(anchoring):
         report.append("anchoring['use_constant'] must be a bool.")
     if not isinstance(anchoring["free_loadings"], bool):
         report.append("anchoring['free_loadings'] must be a bool.")
+    if not isinstance(anchoring["ignore_constant_when_anchoring"], bool):
+        report.append("anchoring['ignore_constant_when_anchoring'] must be a bool.")
     return report
 
 
diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index d2ae086..dea4819 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -160,7 +160,9 @@ def _process_anchoring(model_dict):
     if "anchoring" in model_dict:
         anchinfo.update(model_dict["anchoring"])
         anchinfo["anchoring"] = True
-        anchinfo["factors"] = list(anchinfo["outcomes"])
+        # other types are reported by check_model
+        if isinstance(anchinfo["outcomes"], dict):
+            anchinfo["factors"] = list(anchinfo["outcomes"])
 
     return anchinfo
 
-- 
2.43.0


From 9587ed5455621745d33277c73fc920b5b0a385e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 16/30] fix: report malformed measurements and normalizations
 beyond the last measured period

Both raised a TypeError, KeyError or IndexError instead of the report of all
problems of the model specification.
---
 skillmodels/check_model.py   | 8 +++++++-
 skillmodels/process_model.py | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/skillmodels/check_model.py b/skillmodels/check_model.py
index 4b743a3..d904ccd 100644
--- a/skillmodels/check_model.py
+++ b/skillmodels/check_model.py
@@ -121,9 +121,15 @@ def _check_normalizations(model_dict, factors):
 
 def _check_normalized_variables_are_present(list_of_normdicts, model_dict, factor):
     report = []
+    measurements = model_dict["factors"][factor]["measurements"]
+    # invalid measurements are reported separately
+    if not _is_list_of(measurements, list):
+        return report
     for period, norm_dict in enumerate(list_of_normdicts):
+        # trailing periods without measurements can be left out
+        present = measurements[period] if period < len(measurements) else []
         for var in norm_dict:
-            if var not in model_dict["factors"][factor]["measurements"][period]:
+            if var not in present:
                 report.append(
                     "You can only normalize variables that are specified as "
                     f"measurements. Check {var} for {factor} in period "
diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index dea4819..8261944 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -67,12 +67,14 @@ def get_dimensions(model_dict):
             n_mixtures. See :ref:`dimensions`.
 
     """
-    all_n_periods = [len(d["measurements"]) for d in model_dict["factors"].values()]
+    all_measurements = [d["measurements"] for d in model_dict["factors"].values()]
+    # measurements that are not lists are reported by check_model
+    all_n_periods = [len(meas) for meas in all_measurements if isinstance(meas, list)]
 
     dims = {
         "n_latent_factors": len(model_dict["factors"]),
         "n_observed_factors": len(model_dict.get("observed_factors", [])),
-        "n_periods": max(all_n_periods),
+        "n_periods": max(all_n_periods, default=1),
         # plus 1 for the constant
         "n_controls": len(model_dict.get("controls", [])) + 1,
         "n_mixtures": model_dict.get("estimation_options", {}).get("n_mixtures", 1),
-- 
2.43.0


From 7c7e70f9ebdb8e93ac4e549bd6282eda4da0e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:44 +0000
Subject: [PATCH 17/30] fix: list a measurement of several factors once in
 measurement correlations

Duplicate labels made annotations of heatmaps show frames instead of values.
---
 skillmodels/correlation_heatmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 18471b4..a4a26de 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -302,6 +302,8 @@ def _get_measurement_data_for_single_period(
         )["variable"].to_list()
     for fac in observed_factors:
         measurements.append(fac)
+    # measurements can belong to several factors but are only needed once
+    measurements = list(dict.fromkeys(measurements))
     df = data.query(f"{update_info.index.names[0]}=={period}")[measurements]
     return df
 
-- 
2.43.0


From fa52c7d183f6feefc684ee9b3db5dda7b9fd3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:11 +0000
Subject: [PATCH 18/30] fix: correlation tables with periods in which nothing
 is measured

They raised a KeyError even if other periods were requested as well.
---
 skillmodels/correlation_heatmap.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index a4a26de..cbb635b 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -293,7 +293,7 @@ def _get_measurement_data_for_single_period(
 
     """
 
-    period_info = update_info.loc[period].reset_index()
+    period_info = _get_period_info(update_info, period)
     measurements = []
 
     for fac in latent_factors:
@@ -396,7 +396,7 @@ def _get_quasi_factor_scores_data_for_single_period(
         df (pd.DataFrame): Processed DataFrame to calculate correlations over.
 
     """
-    period_info = update_info.loc[period].reset_index()
+    period_info = _get_period_info(update_info, period)
     to_concat = []
     for factor in latent_factors:
         period_factor_measurements = period_info.query(
@@ -507,11 +507,12 @@ def _get_factor_scores_data_for_single_period(
         df (pd.DataFrame): Processed DataFrame to calculate correlations over.
 
     """
-    period_info = update_info.loc[period].reset_index()
+    period_info = _get_period_info(update_info, period)
     params = params.query(f"period=={period}").droplevel("period")
-    loadings = params.loc["loadings"]["value"]
+    loadings = params.query("category == 'loadings'").droplevel("category")["value"]
     intercepts = (
-        params.loc["controls"].query("name2 == 'constant'").droplevel("name2")["value"]
+        params.query("category == 'controls' and name2 == 'constant'")
+        .droplevel(["category", "name2"])["value"]
     )
     loadings_count = loadings.astype(bool).groupby("name1").sum()
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
@@ -571,6 +572,12 @@ def _get_factor_scores_data_for_multiple_periods(
     return df
 
 
+def _get_period_info(update_info, period):
+    """Select the updates of one period, which can be none at all."""
+    in_period = update_info.index.get_level_values(0) == period
+    return update_info[in_period].droplevel(0).reset_index()
+
+
 def _process_factors(model, factors):
     "Process factors to get a tuple of lists."
     if not factors:
-- 
2.43.0


From 6e7c086ea82c4268c04b0ce7c5575d6a386ce260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:39 +0000
Subject: [PATCH 19/30] fix: correlation tables ignore a data column that is
 called period

It took precedence over the index level when selecting observations.
---
 skillmodels/correlation_heatmap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index cbb635b..62894e4 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -133,7 +133,8 @@ def get_measurements_corr(data, model_dict, factors, periods):
     data = data.copy(deep=True)
     model = process_model(model_dict)
     periods = _process_periods(periods, model)
-    data = pre_process_data(data, periods)
+    # a variable that is called period would take precedence over the index level
+    data = pre_process_data(data, periods).drop(columns="period", errors="ignore")
     latent_factors, observed_factors = _process_factors(model, factors)
     update_info = model["update_info"]
     df = _get_measurement_data(
@@ -169,7 +170,8 @@ def get_quasi_scores_corr(data, model_dict, factors, periods):
     data = data.copy(deep=True)
     model = process_model(model_dict)
     periods = _process_periods(periods, model)
-    data = pre_process_data(data, periods)
+    # a variable that is called period would take precedence over the index level
+    data = pre_process_data(data, periods).drop(columns="period", errors="ignore")
     latent_factors, observed_factors = _process_factors(model, factors)
     update_info = model["update_info"]
     df = _get_quasi_factor_scores_data(
@@ -204,7 +206,8 @@ def get_scores_corr(data, params, model_dict, factors, periods):
     data = data.copy(deep=True)
     model = process_model(model_dict)
     periods = _process_periods(periods, model)
-    data = pre_process_data(data, periods)
+    # a variable that is called period would take precedence over the index level
+    data = pre_process_data(data, periods).drop(columns="period", errors="ignore")
     latent_factors, observed_factors = _process_factors(model, factors)
     update_info = model["update_info"]
     params = params.loc[["controls", "loadings"]]
-- 
2.43.0


From 06771e420d3f5024003011d7841d4cf550e52a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:42 +0000
Subject: [PATCH 20/30] fix: color range of trimmed heatmaps covers all
 displayed correlations

The largest correlation was searched below the diagonal of the trimmed table, which
left out displayed cells if the diagonal or upper triangle are hidden, gave a missing
range with undefined correlations and failed if nothing else was left.
---
 skillmodels/correlation_heatmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 62894e4..77b510e 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -733,7 +733,12 @@ def _get_heatmap_kwargs(
 
     """
     if zmax is None:
-        zmax = np.abs(corr.to_numpy())[np.tril_indices_from(corr, k=-1)].max()
+        # rows and columns can differ after trimming, so positions are not enough
+        rows, cols = corr.index.to_numpy(), corr.columns.to_numpy()
+        off_diagonal = np.not_equal.outer(rows.astype(object), cols.astype(object))
+        displayed = np.abs(corr.to_numpy())[off_diagonal.astype(bool)]
+        displayed = displayed[~np.isnan(displayed)]
+        zmax = displayed.max() if len(displayed) > 0 else 1
     if zmin is None:
         zmin = -zmax
     if zmid is None:
-- 
2.43.0


From fb9b9ff3ed28565cea05d2bdcb0eba8368e06d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:11 +0000
Subject: [PATCH 21/30] fix: transition plots accept state ranges of the latent
 factors only

---
 skillmodels/visualize_transition_equations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 023f1d5..2d5a02c 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -314,10 +314,11 @@ def _get_dictionary_with_plots(
 
 
 def _get_state_ranges(state_ranges, states_data, all_factors):
-    """Create state ranges if none is given"""
-    if state_ranges is None:
-        state_ranges = create_state_ranges(states_data, all_factors)
-    return state_ranges
+    """Create state ranges for all factors for which none is given."""
+    out = create_state_ranges(states_data, all_factors)
+    if state_ranges is not None:
+        out.update(state_ranges)
+    return out
 
 
 def _get_pardict(model, params):
-- 
2.43.0


From 4f54ccc4fd2ef51a01576387523f1e9d29e90816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 22/30] fix: combining plots does not modify the factor mapping
 of the caller

---
 skillmodels/visualize_factor_distributions.py | 11 ++++-------
 skillmodels/visualize_transition_equations.py | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 9f1ee6d..c7b7a9a 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -592,13 +592,10 @@ def _process_layout_kwargs_3d(layout_kwargs, showgrids, showaxlines, showlabels)
 
 def _process_factor_mapping_dist(mapper, factors):
     """Process mapper to return dictionary with old and new factor names"""
-    if mapper is None:
-        mapper = {fac: fac for fac in factors}
-    else:
-        for fac in factors:
-            if fac not in mapper:
-                mapper[fac] = fac
-    return mapper
+    out = {fac: fac for fac in factors}
+    if mapper is not None:
+        out.update(mapper)
+    return out
 
 
 def _get_ordered_factors(factor_order, factors):
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 2d5a02c..58aa4ae 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -471,13 +471,10 @@ def _prepare_data_for_one_plot_average_2d(
 def _process_factor_mapping_trans(factor_mapper, output_factors, input_factors):
     """Process mapper to return dictionary with old and new factor names"""
     all_factors = input_factors + output_factors
-    if factor_mapper is None:
-        factor_mapper = {fac: fac for fac in all_factors}
-    else:
-        for fac in all_factors:
-            if fac not in factor_mapper:
-                factor_mapper[fac] = fac
-    return factor_mapper
+    out = {fac: fac for fac in all_factors}
+    if factor_mapper is not None:
+        out.update(factor_mapper)
+    return out
 
 
 def _process_orders(columns, rows, plots_dict):
-- 
2.43.0


From 01a529cc549166cd2ff6c8f7eeaef09758579c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:11 +0000
Subject: [PATCH 23/30] fix: density contours are not transposed

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index c7b7a9a..017f5bf 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -341,7 +341,7 @@ def bivariate_density_contours(
                 contour = go.Contour(
                     x=x[:, 0],
                     y=y[0, :],
-                    z=z,
+                    z=z.T,
                     line={"color": getattr(px.colors.qualitative, lines_colorscale)[i]},
                 )
                 fig.add_trace(contour)
-- 
2.43.0


From 116c3020177b8c1e5de526ff9d86eb25de609b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:36 +0000
Subject: [PATCH 24/30] fix: distribution plots of several observed factors or
 scenarios

---
 skillmodels/visualize_factor_distributions.py | 56 +++++++++----------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 017f5bf..c0c3bb3 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -10,6 +10,7 @@ from plotly.subplots import make_subplots
 from scipy.stats import gaussian_kde
 
 from skillmodels.filtered_states import get_filtered_states
+from skillmodels.process_data import pre_process_data
 from skillmodels.process_model import process_model
 from skillmodels.utils_plotting import get_layout_kwargs
 from skillmodels.utils_plotting import get_make_subplot_kwargs
@@ -210,7 +211,7 @@ def univariate_densities(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     scenarios = df["scenario"].unique()
     plots_dict = {}
@@ -314,7 +315,7 @@ def bivariate_density_contours(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data=data, factors=factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     contour_kwargs = _process_contour_kwargs(
@@ -429,7 +430,7 @@ def bivariate_density_surfaces(
     factors = _get_factors(
         model=model, factors=factors, observed_factors=observed_factors
     )
-    observed_states = _get_data_observed_factors(data, factors)
+    observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
     plots_dict = {}
     layout_kwargs = _process_layout_kwargs_3d(
@@ -474,27 +475,21 @@ def bivariate_density_surfaces(
 
 def _process_data(states, period, factors, observed_states=None):
     if isinstance(states, pd.DataFrame):
-        to_concat = []
-        for fac in factors:
-            if fac in states:
-                to_concat.append(states.query(f"period == {period}")[fac])
-        data = pd.concat(to_concat, axis=1)
-        data["scenario"] = "none"
-    else:
-        if not isinstance(states, dict):
-            states = {i: df for i, df in enumerate(states)}
-        to_concat = []
-        for name, df in states.items():
-            df = df.query(f"period == {period}")[factors]
-            df["scenario"] = name
-            to_concat.append(df)
-        data = pd.concat(to_concat)
-    data = data.reset_index()
-    if observed_states is not None:
-        data = pd.concat(
-            [data, observed_states.query(f"period == {period}").reset_index()], axis=1
-        )
-    return data
+        states = {"none": states}
+    elif not isinstance(states, dict):
+        states = {i: df for i, df in enumerate(states)}
+    observed_factors = [] if observed_states is None else list(observed_states)
+    latent_factors = [fac for fac in factors if fac not in observed_factors]
+    to_concat = []
+    for name, df in states.items():
+        df = df.query(f"period == {period}").reset_index(drop=True)
+        data = df[latent_factors].copy()
+        for fac in observed_factors:
+            # the individuals in the states are enumerated in sorted order
+            data[fac] = df["id"].map(observed_states[fac].xs(period, level="period"))
+        data["scenario"] = name
+        to_concat.append(data)
+    return pd.concat(to_concat, ignore_index=True)
 
 
 def _process_distplot_kwargs(
@@ -619,14 +614,13 @@ def _get_factors(factors, observed_factors, model):
     return factors
 
 
-def _get_data_observed_factors(data, factors):
+def _get_data_observed_factors(data, factors, model):
     """Get data with observed factors if any."""
-    to_concat = []
-    for fac in factors:
-        if fac in data:
-            to_concat.append(data[fac])
-    if len(to_concat) >= 1:
-        observed_states = pd.DataFrame(pd.concat(to_concat))
+    latent_factors = model["labels"]["latent_factors"]
+    observed = [fac for fac in factors if fac not in latent_factors and fac in data]
+    if len(observed) >= 1:
+        # individuals and periods are enumerated as in the states
+        observed_states = pre_process_data(data, model["labels"]["periods"])[observed]
     else:
         observed_states = None
     return observed_states
-- 
2.43.0


From 09d1ded0b2a3c7ba56e6f464b282a0007c675240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:30 +0000
Subject: [PATCH 25/30] fix: univariate densities for lists of states are not
 empty

---
 skillmodels/visualize_factor_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index c0c3bb3..8eb348b 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -213,7 +213,7 @@ def univariate_densities(
     )
     observed_states = _get_data_observed_factors(data, factors, model)
     df = _process_data(states, period, factors, observed_states)
-    scenarios = df["scenario"].unique()
+    scenarios = df["scenario"].unique().tolist()
     plots_dict = {}
     distplot_kwargs = _process_distplot_kwargs(
         show_curve,
-- 
2.43.0


From 5f8876d8e5850c048dfd62b0750558902b7c633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:30 +0000
Subject: [PATCH 26/30] fix: density plots with histograms can be combined

---
 skillmodels/visualize_factor_distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skillmodels/visualize_factor_distributions.py b/skillmodels/visualize_factor_distributions.py
index 8eb348b..5f99e01 100644
--- a/skillmodels/visualize_factor_distributions.py
+++ b/skillmodels/visualize_factor_distributions.py
@@ -125,7 +125,12 @@ def combine_distribution_plots(
                     fig.add_trace(d, col=col + 1, row=row + 1)
                     fig.update_xaxes(title=factor_names[fac1], col=col + 1, row=row + 1)
                     fig.update_yaxes(title="Density", col=col + 1, row=row + 1)
-                    fig.update_traces(line_width=line_width, row=row + 1, col=col + 1)
+                    fig.update_traces(
+                        line_width=line_width,
+                        row=row + 1,
+                        col=col + 1,
+                        selector={"type": "scatter"},
+                    )
 
             else:
                 if surface_plots is not None:
-- 
2.43.0


From e8dbdafdccbd91942754f53ded133df9d5dbf2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 27/30] fix: factor names do not have to be valid in pandas
 queries

---
 skillmodels/correlation_heatmap.py | 18 +++++++++---------
 skillmodels/parse_params.py        |  6 ++++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 77b510e..1995544 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -300,9 +300,7 @@ def _get_measurement_data_for_single_period(
     measurements = []
 
     for fac in latent_factors:
-        measurements += period_info.query(
-            f"{fac} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        measurements += _get_factor_measurements(period_info, fac)
     for fac in observed_factors:
         measurements.append(fac)
     # measurements can belong to several factors but are only needed once
@@ -402,9 +400,7 @@ def _get_quasi_factor_scores_data_for_single_period(
     period_info = _get_period_info(update_info, period)
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = _get_factor_measurements(period_info, factor)
         df = data.query(f"{update_info.index.names[0]}=={period}")[
             period_factor_measurements
         ]
@@ -521,9 +517,7 @@ def _get_factor_scores_data_for_single_period(
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
     to_concat = []
     for factor in latent_factors:
-        period_factor_measurements = period_info.query(
-            f"{factor} == True and purpose == 'measurement'"
-        )["variable"].to_list()
+        period_factor_measurements = _get_factor_measurements(period_info, factor)
         period_factor_measurements = [
             m for m in period_factor_measurements if m not in leave_out_meas
         ]
@@ -581,6 +575,12 @@ def _get_period_info(update_info, period):
     return update_info[in_period].droplevel(0).reset_index()
 
 
+def _get_factor_measurements(period_info, factor):
+    # query would not work for factor names that are not python identifiers
+    is_measurement = period_info[factor] & (period_info["purpose"] == "measurement")
+    return period_info[is_measurement]["variable"].to_list()
+
+
 def _process_factors(model, factors):
     "Process factors to get a tuple of lists."
     if not factors:
diff --git a/skillmodels/parse_params.py b/skillmodels/parse_params.py
index 9183e40..e86d2eb 100644
--- a/skillmodels/parse_params.py
+++ b/skillmodels/parse_params.py
@@ -51,9 +51,11 @@ def create_parsing_info(params_index, update_info, labels, anchoring):
 
     # "trans_coeffs"
     pos_dict = {}
+    is_transition = params_index.get_level_values("category") == "transition"
     for factor in labels["latent_factors"]:
-        helper = pd.DataFrame(index=params_index)
-        loc = helper.query(f"category == 'transition' & name1 == '{factor}'").index
+        # query would not work for factor names with quotes
+        is_factor = params_index.get_level_values("name1") == factor
+        loc = params_index[is_transition & is_factor]
         pos_dict[factor] = _get_positional_selector_from_loc(range_sr, loc)
 
     parsing_info["transition"] = pos_dict
-- 
2.43.0


From 5a550ba01716ae578d69783265878b4d1e7a7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 28/30] fix: measurement names that are tuples in debug data
 and factor scores

---
 skillmodels/correlation_heatmap.py | 4 +++-
 skillmodels/process_debug_data.py  | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/skillmodels/correlation_heatmap.py b/skillmodels/correlation_heatmap.py
index 1995544..4628a2a 100644
--- a/skillmodels/correlation_heatmap.py
+++ b/skillmodels/correlation_heatmap.py
@@ -515,6 +515,8 @@ def _get_factor_scores_data_for_single_period(
     )
     loadings_count = loadings.astype(bool).groupby("name1").sum()
     leave_out_meas = loadings_count[loadings_count > 1].index.to_list()
+    # names of measurements can be tuples, which .loc would take for several indexers
+    intercepts, loadings = intercepts.to_dict(), loadings.to_dict()
     to_concat = []
     for factor in latent_factors:
         period_factor_measurements = _get_factor_measurements(period_info, factor)
@@ -525,7 +527,7 @@ def _get_factor_scores_data_for_single_period(
             period_factor_measurements
         ]
         for m in period_factor_measurements:
-            df[m] = (df[m] - intercepts.loc[m]) / loadings.loc[(m, factor)]
+            df[m] = (df[m] - intercepts[m]) / loadings[(m, factor)]
         sr = df.mean(axis=1)
         sr.name = f"{factor}"
         to_concat.append(sr)
diff --git a/skillmodels/process_debug_data.py b/skillmodels/process_debug_data.py
index 52f2f16..67d80cd 100644
--- a/skillmodels/process_debug_data.py
+++ b/skillmodels/process_debug_data.py
@@ -97,7 +97,7 @@ def _create_post_update_states(filtered_states, factors, update_info):
         df = _convert_state_array_to_df(data, factors)
         df["period"] = period
         df["id"] = np.arange(n_obs).repeat(n_mixtures)
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         to_concat.append(df)
 
     post_states = pd.concat(to_concat)
@@ -163,7 +163,7 @@ def _process_residuals(residuals, update_info):
         df["mixture"] = np.full((n_obs, n_mixtures), np.arange(n_mixtures)).flatten()
         df["period"] = period
         df["id"] = np.arange(n_obs).repeat(n_mixtures)
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         to_concat.append(df)
     return pd.concat(to_concat)
 
@@ -176,7 +176,7 @@ def _process_all_contributions(all_contributions, update_info):
     to_concat = []
     for (period, meas), contribs in zip(update_info.index, all_contributions):
         df = pd.DataFrame(data=contribs.reshape(-1, 1), columns=["contribution"])
-        df["measurement"] = meas
+        df["measurement"] = [meas] * len(df)
         df["period"] = period
         df["id"] = np.arange(len(df))
         to_concat.append(df)
-- 
2.43.0


From feb9ecf99b974bf5179c69066e9b38d9fb7b86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:03 +0000
Subject: [PATCH 29/30] fix: accept parameter values that are stored as
 integers or objects

The value column of the params_template has object dtype. Filling it by label
leaves the dtype unchanged, which jax does not accept.
---
 skillmodels/filtered_states.py                | 2 +-
 skillmodels/likelihood_function.py            | 2 +-
 skillmodels/simulate_data.py                  | 2 +-
 skillmodels/visualize_transition_equations.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skillmodels/filtered_states.py b/skillmodels/filtered_states.py
index a5ac0b2..f9a1361 100644
--- a/skillmodels/filtered_states.py
+++ b/skillmodels/filtered_states.py
@@ -68,7 +68,7 @@ def anchor_states_df(states_df, model_dict, params):
     )
 
     *_, pardict = parse_params(
-        params=jnp.array(params["value"].to_numpy()),
+        params=jnp.array(params["value"].to_numpy(dtype=float)),
         parsing_info=parsing_info,
         dimensions=model["dimensions"],
         labels=model["labels"],
diff --git a/skillmodels/likelihood_function.py b/skillmodels/likelihood_function.py
index 4a6ec62..1cb01f3 100644
--- a/skillmodels/likelihood_function.py
+++ b/skillmodels/likelihood_function.py
@@ -498,5 +498,5 @@ def _get_jnp_params_vec(params, target_index):
             msg += f"Your params have missing entries: {missing_entries}. "
         raise ValueError(msg)
 
-    vec = jnp.array(params.reindex(target_index)["value"].to_numpy())
+    vec = jnp.array(params.reindex(target_index)["value"].to_numpy(dtype=float))
     return vec
diff --git a/skillmodels/simulate_data.py b/skillmodels/simulate_data.py
index 7bd2430..b20a974 100644
--- a/skillmodels/simulate_data.py
+++ b/skillmodels/simulate_data.py
@@ -91,7 +91,7 @@ def simulate_dataset(model_dict, params, n_obs=None, data=None, policies=None):
     )
 
     states, covs, log_weights, pardict = parse_params(
-        params=jnp.array(params["value"].to_numpy()),
+        params=jnp.array(params["value"].to_numpy(dtype=float)),
         parsing_info=parsing_info,
         dimensions=model["dimensions"],
         labels=model["labels"],
diff --git a/skillmodels/visualize_transition_equations.py b/skillmodels/visualize_transition_equations.py
index 58aa4ae..1bbb507 100644
--- a/skillmodels/visualize_transition_equations.py
+++ b/skillmodels/visualize_transition_equations.py
@@ -331,7 +331,7 @@ def _get_pardict(model, params):
     )
 
     _, _, _, pardict = parse_params(
-        params=jnp.array(params["value"].to_numpy()),
+        params=jnp.array(params["value"].to_numpy(dtype=float)),
         parsing_info=parsing_info,
         dimensions=model["dimensions"],
         labels=model["labels"],
-- 
2.43.0


From 83b57c5a806fad6074e1830b38d262d37811785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 30/30] fix: constant transition function for factor names that
 are not valid argument names

---
 skillmodels/process_model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skillmodels/process_model.py b/skillmodels/process_model.py
index 8261944..178e504 100644
--- a/skillmodels/process_model.py
+++ b/skillmodels/process_model.py
@@ -3,7 +3,6 @@ from functools import partial
 import numpy as np
 import pandas as pd
 from dags import concatenate_functions
-from dags.signature import rename_arguments
 from jax import vmap
 from pandas import DataFrame
 
@@ -181,7 +180,7 @@ def _get_transition_info(model_dict, labels):
         if isinstance(spec, str):
             func = getattr(tf, spec)
             if spec == "constant":
-                func = rename_arguments(func, mapper={"state": factor})
+                func = _get_constant_function(all_factors.index(factor))
             func_list.append(extract_params(func, key=factor))
             param_names.append(getattr(tf, f"params_{spec}")(all_factors))
         elif callable(spec):
@@ -236,6 +235,14 @@ def _get_transition_info(model_dict, labels):
     return out
 
 
+def _get_constant_function(pos):
+    # factor names are not necessarily valid names of arguments
+    def constant(states, params):
+        return tf.constant(states[pos], params)
+
+    return constant
+
+
 def _get_update_info(model_dict, dimensions, labels, anchoring_info):
     """Construct a DataFrame with information on each Kalman update.
 
-- 
2.43.0

