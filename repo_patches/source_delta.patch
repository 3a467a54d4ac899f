From ca7dd9c31d84666867b64ffcc6db4426e484deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 01/37] fix: do not truncate the user's dataDict['omegalm'] in
 place

---
 gw_eccentricity/eccDefinition.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 977294e..50a535d 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -643,9 +643,10 @@ class eccDefinition:
         amp_phase_omega_dict.update(self.get_amplm_from_dataDict(dataDict))
         # add phaselm and phaselm_zeroecc if zeroecc data provided
         amp_phase_omega_dict.update(self.get_phaselm_from_dataDict(dataDict))
-        # add omegalm
+        # add omegalm. Use a new dictionary (as is done for amplm and phaselm)
+        # so that truncating the data later does not modify the user's input.
         if "omegalm" in dataDict:
-            amp_phase_omega_dict.update({"omegalm": dataDict["omegalm"]})
+            amp_phase_omega_dict.update({"omegalm": dict(dataDict["omegalm"])})
         else:
             # compute it from phaselm that is already in amp_phase_omega_dict
             amp_phase_omega_dict.update(
@@ -656,7 +657,7 @@ class eccDefinition:
         # add omegalm_zeroecc if zeroecc data is provided
         if "omegalm_zeroecc" in dataDict:
             amp_phase_omega_dict.update(
-                {"omegalm_zeroecc": dataDict["omegalm_zeroecc"]})
+                {"omegalm_zeroecc": dict(dataDict["omegalm_zeroecc"])})
         # Look for zeroecc phaselm is amp_phase_omega_dict and compute
         # omegalm_zeroecc from it if phaselm_zeroecc is present
         elif "phaselm_zeroecc" in amp_phase_omega_dict \
-- 
2.43.0


From 942912b15cd2af7cf041637c3b4c82a4be578ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 02/37] fix: Fits methods must not shift the user's time array
 in place

---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 959b610..bffd0b9 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -182,7 +182,10 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         # axis such that merger occurs at t=0.
         # After the peaks are found, the time is reshifted to to its original
         # values at the end of this function so the merger is again at t_merger.
-        self.t -= self.t_merger
+        # This is done on a copy since self.t may share memory with the time
+        # array provided by the user.
+        t_original = self.t
+        self.t = self.t - self.t_merger
 
         # DESIRED NUMBER OF EXTREMA left/right DURING FITTING
         # Code will look for N extrema to the left of idx_ref, and N+1 extrema
@@ -450,7 +453,7 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
 
         # Now that we are done with finding peaks, we shift the time axis to
         # it's original values
-        self.t += self.t_merger
+        self.t = t_original
         return np.array(extrema)
 
         # Procedure:
-- 
2.43.0


From 95caa916e53b48cdbf0d75868403da446defa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 03/37] fix: rotate zeroecc amplm/phaselm modes too and leave
 the user's dataDict alone when transforming frames

---
 gw_eccentricity/eccDefinition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 50a535d..ea4fff2 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -957,7 +957,9 @@ class eccDefinition:
             phaselm_dict = self.get_phaselm_from_dataDict(data_dict)
             # combine amplm and phaselm to get hlm
             hlm_dict = self.get_hlm_from_amplm_phaselm(amplm_dict, phaselm_dict)
-            data_dict.update(hlm_dict)
+            # Add only the modes for the current tag, using a new dictionary to
+            # not modify the user's input.
+            data_dict = {**data_dict, "hlm" + tag: hlm_dict["hlm" + tag]}
             data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
             debug_message(
                 f"Removing the input inertial frame {'amplm' + tag}, "
-- 
2.43.0


From 3f6d572f29fff1d7ca65e2022ff9db184a57c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 04/37] fix: do not modify the user's extra_kwargs for
 precessing systems

---
 gw_eccentricity/eccDefinition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index ea4fff2..ce0b8cc 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -477,8 +477,11 @@ class eccDefinition:
         if self.precessing:
             # set extra_kwargs to empty dict if it is None to avoid issues when
             # trying to access or set keys in extra_kwargs.
+            # Otherwise, make a copy to not modify the user's extra_kwargs.
             if extra_kwargs is None:
                 extra_kwargs = {}
+            else:
+                extra_kwargs = deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
             filter_kwargs = check_kwargs_and_set_defaults(
-- 
2.43.0


From 51c74838a49ea1b2a1578ef0c1e8dfba867d1125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 05/37] fix: make the check for tref_out in the extrapolated
 region effective

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index ce0b8cc..1753acc 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2443,10 +2443,10 @@ class eccDefinition:
                 "pericenters/apocenters.")
         # check that tref_out is within t_zeroecc_shifted to make sure that
         # the output is not in the extrapolated region.
-        if "hlm_zeroecc" in self.dataDict and (self.tref_out[-1]
-                                               > self.t_zeroecc_shifted[-1]):
+        if hasattr(self, "t_zeroecc_shifted") and (max(self.tref_out)
+                                                   > self.t_zeroecc_shifted[-1]):
             raise Exception("tref_out is in extrapolated region.\n"
-                            f"Last element in tref_out = {self.tref_out[-1]}\n"
+                            f"Latest time in tref_out = {max(self.tref_out)}\n"
                             "Last element in t_zeroecc = "
                             f"{self.t_zeroecc_shifted[-1]}.\nThis might happen"
                             " when 'num_orbits_to_exclude_before_merger' is "
-- 
2.43.0


From f4818184c66fb127e0ff5c4b19131d50697ae932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 06/37] fix: drop the extra extremum of a too close pair at the
 start of the data

---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 1753acc..5b13b55 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1459,7 +1459,7 @@ class eccDefinition:
             if idx_too_close[-1] < mid_index:
                 last_index = idx_too_close[-1]
                 last_pair = [extrema_location[last_index],
-                             extrema_location[last_index-1]]
+                             extrema_location[last_index+1]]
                 last_pair_times = self.t[last_pair]
                 debug_message(
                     f"At least a pair of {extrema_type} are too close to "
@@ -1468,12 +1468,12 @@ class eccDefinition:
                     " Last pair of such extrema is located in the first half"
                     f" of the {extrema_type} locations between {last_pair},"
                     f"i.e., t={last_pair_times}.\n"
-                    f" {extrema_type} before {extrema_location[last_index]}"
-                    f" i.e., t < {self.t[extrema_location[last_index]]} "
+                    f" {extrema_type} before {extrema_location[last_index+1]}"
+                    f" i.e., t < {self.t[extrema_location[last_index+1]]} "
                     "are dropped.",
                     self.debug_level, important=False)
                 extrema_location = extrema_location[
-                    extrema_location >= extrema_location[last_index]]
+                    extrema_location >= extrema_location[last_index+1]]
         return extrema_location
 
     def get_good_extrema(self, pericenters, apocenters,
-- 
2.43.0


From 0b69d361af42d752374d837cf53ccbd7db5f4693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 07/37] fix: drop the extremum before a jump at the start of
 the data

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 5b13b55..74ddb68 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1388,8 +1388,8 @@ class eccDefinition:
         if len(idx_too_small_ratio) > 0 and (idx_too_small_ratio[-1]
                                              < mid_index):
             last_idx = idx_too_small_ratio[-1]
-            last_pair_indices = [extrema_location[last_idx+1],
-                                 extrema_location[last_idx+2]]
+            last_pair_indices = [extrema_location[last_idx],
+                                 extrema_location[last_idx+1]]
             last_pair_times = [self.t[last_pair_indices[0]],
                                self.t[last_pair_indices[1]]]
             phase_diff_current = delta_phase_gw_extrema[last_idx+1]
@@ -1408,7 +1408,7 @@ class eccDefinition:
                 f"{last_pair_times[-1]} are therefore dropped.",
                 self.debug_level, important=False)
             extrema_location = extrema_location[extrema_location >=
-                                                extrema_location[last_idx]]
+                                                extrema_location[last_idx+1]]
         return extrema_location
 
     def drop_extrema_if_too_close(self, extrema_location,
-- 
2.43.0


From 15ce45b7f3f160eff6cf72a2cf9e26a40b475bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 08/37] fix: select the waveform segment correctly for unsorted
 reference points

---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 74ddb68..5e4bce4 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2056,13 +2056,13 @@ class eccDefinition:
     def _get_reference_bounds(self):
         """Get t_left and t_right depending on domain (time or frequency)."""
         if self.domain == "time":
-            t_left, t_right = self.tref_in[0], self.tref_in[-1]
+            t_left, t_right = min(self.tref_in), max(self.tref_in)
         else:
             t_left = self.get_approximate_tref_for_fref_using_secular_trend(
-                self.fref_in[0])
+                min(self.fref_in))
             if len(self.fref_in) > 1:
                 t_right = self.get_approximate_tref_for_fref_using_secular_trend(
-                    self.fref_in[-1])
+                    max(self.fref_in))
             else:
                 t_right = t_left
         return t_left, t_right
-- 
2.43.0


From 2d84f67b734aa0fd8c1bb2174366dc2baa9ea96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 09/37] fix: secular trend fit used to select a segment for
 fref_in needs the merger at t=0

---
 gw_eccentricity/eccDefinition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 5e4bce4..b55b75d 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1989,12 +1989,13 @@ class eccDefinition:
             step = len(time) // 1000
             time = time[::step]
             omega = omega[::step]
-        # get the secular trend
+        # get the secular trend. The fit assumes the merger to be at t=0.
+        time = time - self.t_merger
         secular_trend = QusicircularFitForMappingFrequencyToTime(time, omega)
         res = secular_trend.least_square_fit()
         # get the location where the secular trend crosses omega_ref
         idx = np.argmin(np.abs(secular_trend.model(time, *res.x) - omega_ref))
-        return time[idx]
+        return time[idx] + self.t_merger
         
     def get_amp_phase_omega_gw_segments(self):
         """Get the relevant data segment for eccentricity measurement.
-- 
2.43.0


From 4efdb44003cb60f3f6bdba5684090f9b8ae4330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 10/37] fix: debug_level=-1 must not make the rational fit
 verbose

---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index b55b75d..f945d74 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1219,10 +1219,10 @@ class eccDefinition:
         debugging purpose. These variables may vary from method to method.
         """
         if self.omega_gw_extrema_interpolation_method == "rational_fit":
-            # set verbose to debug_level. If verbose is True, then it prints
-            # information of each iteration for rational fits for a given
-            # degree.
-            self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = self.debug_level
+            # set verbose based on debug_level. If verbose is True, then it
+            # prints information of each iteration for rational fits for a
+            # given degree.
+            self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = self.debug_level >= 1
             # keep history of rational fit degree and nonmonotonicity of the
             # corresponding fits
             self.rational_fit_nonmonotonicity_history = {
-- 
2.43.0


From 118c513cbec75758ca08846898e2b9a8b2eba594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 11/37] fix: debug_level=-1 must silence the message about
 returning zero eccentricity

---
 gw_eccentricity/eccDefinition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index f945d74..3e7ffd5 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1858,7 +1858,8 @@ class eccDefinition:
                     "Instead the eccentricity and mean anomaly will be set to "
                     "zero.",
                     important=True,
-                    debug_level=0)
+                    # Never raise, since zeros are returned instead.
+                    debug_level=min(self.debug_level, 0))
             else:
                 recommended_methods = ["ResidualAmplitude", "AmplitudeFits"]
                 if self.method not in recommended_methods:
-- 
2.43.0


From c9558d46fce9641702c41d01e4afffa6c4a7c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 12/37] fix: write checkpoint and results atomically so that an
 interrupted run can be resumed

---
 gw_eccentricity/postprocess/postprocess_cli.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 76186e5..993f83a 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -5,6 +5,7 @@ import importlib
 import importlib.util
 import json
 import logging
+import os
 import time
 from pathlib import Path
 from typing import TypedDict, Callable
@@ -165,14 +166,18 @@ def extract_batch_data(
 # ---------------------------------------------------------------------------
 
 def write_df(df: pd.DataFrame, path: str, fmt: str) -> None:
+    # Write to a temporary file first so that an interruption while writing
+    # never leaves a partially written file at ``path``.
+    tmp_path = f"{path}.tmp"
     if fmt == "json":
-        df.to_json(path)
+        df.to_json(tmp_path)
     elif fmt == "csv":
-        df.to_csv(path, index=False)
+        df.to_csv(tmp_path, index=False)
     elif fmt == "parquet":
-        df.to_parquet(path)
+        df.to_parquet(tmp_path)
     else:
         raise ValueError(f"Unsupported output format: {fmt!r}")
+    os.replace(tmp_path, path)
 
 
 def load_checkpoint(checkpoint_path: str) -> pd.DataFrame | None:
@@ -186,7 +191,7 @@ def save_checkpoint(results: list, config: PostProcessConfig) -> None:
     """Save results to checkpoint file (parquet format)."""
     results_df = PostProcessResults([r for r in results if r is not None]).to_dataframe()
     checkpoint_path = f"{config['output_dir']}/checkpoint.parquet"
-    results_df.to_parquet(checkpoint_path)
+    write_df(results_df, checkpoint_path, "parquet")
     logger.info("Checkpoint saved: %s", checkpoint_path)
 
 
-- 
2.43.0


From f3034281b8f8145b380ac2f4f8cc292a8ffcc2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 13/37] fix: process a sample requested more than once only
 once

---
 gw_eccentricity/postprocess/postprocess_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 993f83a..49f51d0 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -312,6 +312,8 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
     samples = config["samples"]
     if samples is None:
         samples = list(posterior.index)
+    # Process each requested sample only once.
+    samples = list(dict.fromkeys(samples))
     selected_posterior = posterior.loc[samples]
     row_indices = list(selected_posterior.index)
     param_list = selected_posterior.to_dict(orient="records")
-- 
2.43.0


From 585c3b686a8292a5a8706c996d6efbb16c7d0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 14/37] fix: handle an empty selection of samples in
 postprocessing

---
 gw_eccentricity/postprocess/core.py            | 12 +++++++-----
 gw_eccentricity/postprocess/postprocess_cli.py |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index bf2a628..20d44ab 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -1,6 +1,6 @@
 """Core postprocessing functions for measuring eccentricity from waveform modes."""
 from __future__ import annotations
-from dataclasses import dataclass
+from dataclasses import dataclass, fields
 import logging
 import pandas as pd
 from ..gw_eccentricity import measure_eccentricity
@@ -21,7 +21,8 @@ class PostProcessResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of PostProcessResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        return pd.DataFrame([result.__dict__ for result in self.results],
+                            columns=[f.name for f in fields(PostProcessResult)])
 
     def success_only(self) -> list[PostProcessResult]:
         """Filter successful results."""
@@ -33,7 +34,7 @@ class PostProcessResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (len(successful) / total) * 100 if total else 0.0,
             'egw': [r.egw for r in successful],
             'lgw': [r.lgw for r in successful]
         }
@@ -53,7 +54,8 @@ class FrefBoundsResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of FrefBoundsResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        return pd.DataFrame([result.__dict__ for result in self.results],
+                            columns=[f.name for f in fields(FrefBoundsResult)])
     
     def success_only(self) -> list[FrefBoundsResult]:
         """Filter successful results."""
@@ -65,7 +67,7 @@ class FrefBoundsResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (len(successful) / total) * 100 if total else 0.0,
             'fref_min': [r.fref_min for r in successful],
             'fref_max': [r.fref_max for r in successful]
         }
diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 49f51d0..5eb4e03 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -364,11 +364,11 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
 
     if n_to_process == 0:
         logger.info("All samples already processed.")
-        save_final(results, row_indices, selected_posterior, config)
         # Signal workers to stop if running MPI
         if size > 1:
             for worker_rank in range(1, size):
                 comm.send(_STOP, dest=worker_rank)
+        save_final(results, row_indices, selected_posterior, config)
         return
 
     logger.info("Processing %d samples across %d rank(s).", n_to_process, size)
-- 
2.43.0


From 669af505a84138efbbc268cc337c3c035d10b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 15/37] fix: reject a batch size below one, which makes the MPI
 run never end

---
 gw_eccentricity/postprocess/postprocess_cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 5eb4e03..f9759c4 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -525,6 +525,9 @@ def build_config_from_cli() -> PostProcessConfig:
     # Should specify either fref or tref, but not both
     if not ((args.tref is None) ^ (args.fref is None)):
         parser.error("Provide exactly one of --fref or --tref, but not both.")
+    # With empty batches the master would wait for results forever.
+    if args.batch_size < 1:
+        parser.error("--batch-size must be at least 1.")
 
     # Each rank loads its own callable — callables cannot survive comm.bcast.
     return {
-- 
2.43.0


From d1e3966eb5d1c9786484c0048d6fff81660d8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 16/37] fix: keep the full zeroecc waveform when it starts less
 than 10 samples before the NR waveform

---
 gw_eccentricity/load_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e2a8a16..4b4ab3f 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1409,8 +1409,8 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # Finally we want to return zeroecc data only about the length of the
     # eccentric waveform and truncate the rest of the waveform to avoid
     # wasting computing resources
-    start_zeroecc_idx = np.argmin(
-        np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10
+    start_zeroecc_idx = max(np.argmin(
+        np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10, 0)
     for key in hlm_zeroecc.keys():
         hlm_zeroecc[key] = hlm_zeroecc[key][start_zeroecc_idx:]
 
-- 
2.43.0


From 078b8f6e2784de33fdc0dac87e7a24a20e8c383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 17/37] fix: allow measuring eccentricity at the minimum
 allowed reference frequency

---
 gw_eccentricity/eccDefinition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 3e7ffd5..e0c4a6e 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3343,6 +3343,11 @@ class eccDefinition:
                                   self.t_for_omega_gw_average,
                                   spline_kwargs=self.general_interp_kwargs,
                                   check_kwargs=False)
+            # For frequencies at the edge of the allowed range, numerical error
+            # in the interpolation can put tref_in slightly outside the range
+            # of times where omega_gw_average is available.
+            tref_in = np.clip(tref_in, self.t_for_omega_gw_average[0],
+                              self.t_for_omega_gw_average[-1])
             # check if tref_in is monotonically increasing
             if any(np.diff(tref_in) <= 0):
                 debug_message(f"tref_in from fref_in using method {method} is"
-- 
2.43.0


From 59c68a97ed9ca7b3501541215e3209a80e253ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 18/37] fix: precessing measurement of symmetric modes must not
 fail when there is no asymmetry to filter

---
 gw_eccentricity/spin_filter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 1ae3066..c216e3e 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -184,6 +184,14 @@ def check_filter_requirement(t, data_copr_22, data_copr_2m2,
     secular_trend = _pn_fit_for_secular_trend(t, data_copr_22, data_type, t_merger)
     residual = data_copr_22 - secular_trend(t)
 
+    # An asymmetry that does not oscillate (for example, identically zero for
+    # aligned-spin systems) provides no time scale to look for its peaks, but
+    # when even its maximum is below the threshold no filtering is required.
+    n_crossings = np.count_nonzero(np.diff(np.sign(asymmetry)))
+    if n_crossings < 2 and (np.max(np.abs(asymmetry))
+                            <= threshold * np.max(np.abs(residual))):
+        return False
+
     # find an estimate of distance between the peaks
     _, _, delta_T = _find_intersection_points(
         t, data_copr_22, combination_sign * data_copr_2m2)
-- 
2.43.0


From 6f3c30f3090aa26ebc6bc7797570e7c20f207685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 19/37] fix: treat mean anomalies differing by a full turn as
 equal in compare_methods

---
 gw_eccentricity/compare_methods.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/compare_methods.py b/gw_eccentricity/compare_methods.py
index 4717f95..7593fda 100644
--- a/gw_eccentricity/compare_methods.py
+++ b/gw_eccentricity/compare_methods.py
@@ -92,10 +92,12 @@ def compute_errors_between_methods(gwecc_obj1,
     # Compute errors in mean anomaly at common tref_out
     mean_ano_ref_1_common = gwecc_obj1.mean_anomaly[common_idx1]
     mean_ano_ref_2_common = gwecc_obj2.mean_anomaly[common_idx2]
-    # We need to unwrap the mean anomaly since zero and
+    # We need to wrap the difference in mean anomaly since zero and
     # 2pi should be treated as the same and hence should give zero errors.
+    # Unwrapping the two mean anomalies separately is not enough, as they can
+    # then differ by a constant multiple of 2pi.
     mean_ano_errors = np.abs(
-        np.unwrap(mean_ano_ref_1_common)
-        - np.unwrap(mean_ano_ref_2_common))
+        np.mod(mean_ano_ref_1_common - mean_ano_ref_2_common + np.pi,
+               2 * np.pi) - np.pi)
     return tref_out_1_common, ecc_errors, mean_ano_errors, ecc_ref_1_common,\
         ecc_ref_2_common, mean_ano_ref_1_common, mean_ano_ref_2_common
-- 
2.43.0


From b74ec5e2889ac22f3f6bea78f98771e1331bfca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 20/37] fix: debug_level must control the message about
 reducing the spline order

---
 gw_eccentricity/eccDefinition.py | 21 +++++++++++++--------
 gw_eccentricity/utils.py         | 17 ++++++++++++-----
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index e0c4a6e..6bb6d0d 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1614,7 +1614,8 @@ class eccDefinition:
                      + extra_message
                      + "Falling back to using spline.",
                      debug_level=self.debug_level, important=True)
-                 rat_fit = get_interpolant(x, y)
+                 rat_fit = get_interpolant(
+                     x, y, debug_level=self.debug_level)
                  kwargs["degrees"] = None
                  break
              # lower degrees by 1
@@ -1764,7 +1765,7 @@ class eccDefinition:
                 interpolant =  method(
                     self.t[extrema], self.omega_gw[extrema], 
                     spline_kwargs=self.special_interp_kwargs_for_omega_gw_extrema,
-                    check_kwargs=False)
+                    check_kwargs=False, debug_level=self.debug_level)
             # check monotonicity of the interpolant
             if self.check_if_first_derivative_is_not_strictly_monotonic(
                     self.t_for_checks,
@@ -2617,7 +2618,8 @@ class eccDefinition:
         if self.ecc_interp is None:
             self.ecc_interp = get_interpolant(
                 self.t_for_checks, self.ecc_for_checks,
-                spline_kwargs=self.general_interp_kwargs, check_kwargs=False)
+                spline_kwargs=self.general_interp_kwargs, check_kwargs=False,
+                debug_level=self.debug_level)
         # Get derivative of ecc(t) using spline
         return self.ecc_interp.derivative(n=n)(t)
 
@@ -2943,12 +2945,12 @@ class eccDefinition:
         self.amp_gw_zeroecc_interp = interpolate(
             self.t, self.t_zeroecc_shifted, self.amp_gw_zeroecc,
             allowExtrapolation=True, spline_kwargs=self.general_interp_kwargs,
-            check_kwargs=False)
+            check_kwargs=False, debug_level=self.debug_level)
         self.res_amp_gw = self.amp_gw - self.amp_gw_zeroecc_interp
         self.omega_gw_zeroecc_interp = interpolate(
             self.t, self.t_zeroecc_shifted, self.omega_gw_zeroecc,
             allowExtrapolation=True, spline_kwargs=self.general_interp_kwargs,
-            check_kwargs=False)
+            check_kwargs=False, debug_level=self.debug_level)
         self.res_omega_gw = (self.omega_gw - self.omega_gw_zeroecc_interp)
 
     def get_t_average_for_orbit_averaged_omega_gw(self):
@@ -3081,7 +3083,8 @@ class eccDefinition:
             "[pericenter to pericenter]")
         return interpolate(
             t, self.t_for_orbit_averaged_omega_gw, orbit_averaged_omega_gw,
-            spline_kwargs=self.general_interp_kwargs, check_kwargs=False)
+            spline_kwargs=self.general_interp_kwargs, check_kwargs=False,
+            debug_level=self.debug_level)
 
     def check_monotonicity_of_omega_gw_average(self,
                                               omega_gw_average,
@@ -3186,7 +3189,8 @@ class eccDefinition:
         """Find omega_gw from zeroecc data."""
         return interpolate(
             t, self.t_zeroecc_shifted, self.omega_gw_zeroecc,
-            spline_kwargs=self.general_interp_kwargs, check_kwargs=False)
+            spline_kwargs=self.general_interp_kwargs, check_kwargs=False,
+            debug_level=self.debug_level)
 
     def get_available_omega_gw_averaging_methods(self):
         """Return available omega_gw averaging methods."""
@@ -3342,7 +3346,8 @@ class eccDefinition:
                                   self.omega_gw_average/(2 * np.pi),
                                   self.t_for_omega_gw_average,
                                   spline_kwargs=self.general_interp_kwargs,
-                                  check_kwargs=False)
+                                  check_kwargs=False,
+                                  debug_level=self.debug_level)
             # For frequencies at the edge of the allowed range, numerical error
             # in the interpolation can put tref_in slightly outside the range
             # of times where omega_gw_average is available.
diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index d7f78a7..bd6d289 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -185,7 +185,8 @@ def interpolate(newX,
                 allowExtrapolation=False,
                 interpolator="spline",
                 spline_kwargs=None,
-                check_kwargs=True):
+                check_kwargs=True,
+                debug_level=0):
     """Interpolate.
 
     Parameters
@@ -209,6 +210,8 @@ def interpolate(newX,
         See under get_interpolant.
     check_kwargs:
         Check spline_kwargs if check_kwargs is True. Default is True.
+    debug_level:
+        See under get_interpolant.
 
     Returns
     -------
@@ -232,7 +235,7 @@ def interpolate(newX,
             raise Exception("Trying to extrapolate, "
                             "but allowExtrapolation=False")
     newY = get_interpolant(oldX, oldY, allowExtrapolation, interpolator,
-                           spline_kwargs, check_kwargs)(newX)
+                           spline_kwargs, check_kwargs, debug_level)(newX)
     return newY
 
 
@@ -241,7 +244,8 @@ def get_interpolant(oldX,
                     allowExtrapolation=False,
                     interpolator="spline",
                     spline_kwargs=None,
-                    check_kwargs=True):
+                    check_kwargs=True,
+                    debug_level=0):
     """Create Interpolant.
 
     Parameters
@@ -268,6 +272,8 @@ def get_interpolant(oldX,
         extra_kwargs will be overridden by allowExtrapolation.
     check_kwargs:
         Check spline_kwargs if check_kwargs is True. Default is True.
+    debug_level:
+        Level of messages, see debug_message. Default is 0.
 
     Returns
     -------
@@ -284,9 +290,10 @@ def get_interpolant(oldX,
         # check that num of data points > order of spline
         if len(oldX) >= 2:
             if len(oldX) <= spline_kwargs["k"]:
-                warnings.warn(f"No of data points is {len(oldX)} but "
+                debug_message(f"No of data points is {len(oldX)} but "
                               f"spline order k = {spline_kwargs['k']}. "
-                              f"Decreasing k to {len(oldX) - 1}.")
+                              f"Decreasing k to {len(oldX) - 1}.",
+                              debug_level)
                 # make a copy so that the original spline_kwargs remains
                 # unmodified.
                 kwargs = spline_kwargs.copy()
-- 
2.43.0


From 9b723b2e40392686ccdf5ec4c623973524b016f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 21/37] fix: debug_level must control the messages of the spin
 filter

---
 gw_eccentricity/eccDefinition.py | 6 +++++-
 gw_eccentricity/spin_filter.py   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 6bb6d0d..2af47a5 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -484,9 +484,13 @@ class eccDefinition:
                 extra_kwargs = deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
+            # messages from the filter follow debug_level unless the user asks
+            # for a different level via filter_kwargs.
+            default_filter_kwargs = get_default_kwargs_for_filtering()
+            default_filter_kwargs["debug_level"] = debug_level
             filter_kwargs = check_kwargs_and_set_defaults(
                 user_filter_kwargs,
-                get_default_kwargs_for_filtering(),
+                default_filter_kwargs,
                 "filter_kwargs",
                 "spin_filter.get_default_kwargs_for_filtering()")
             # check if filtering is required and filter if necessary.
diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index c216e3e..458f78c 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -583,7 +583,8 @@ class FilterSpinInducedOscillations:
         # get the cutoff frequency from amplitude spectrum
         f_cutoff, f_ecc, f_spin, freq_spectrum, amp_spectrum = _get_fcut_fecc_fspin(
             t_seg, residual_windowed, f_spin_guess, f_spin_lo_frac,
-            f_spin_hi_frac, fecc_lo_frac, fecc_hi_frac, self.debug_level)
+            f_spin_hi_frac, fecc_lo_frac, fecc_hi_frac,
+            verbose=self.debug_level > 0)
         
         # lowpass filter to remove the faster spin-induced oscillation
         fd = np.fft.rfft(residual_no_window)
-- 
2.43.0


From 51f7ce015dbaf1907c2e7d84cffa2a417ec70968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 22/37] fix: debug plots must not make a measurement fail where
 LaTeX is missing

---
 gw_eccentricity/eccDefinition.py | 4 ++--
 gw_eccentricity/spin_filter.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 2af47a5..58be544 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2150,7 +2150,7 @@ class eccDefinition:
     def _plot_debug_segment(self, t_left, t_right, t_for_debug, amp_for_debug, omega_for_debug):
         """Plot full waveform vs selected segment for debugging."""
         style = "APS"
-        use_fancy_plotsettings(style=style)
+        use_fancy_plotsettings(usetex=False, style=style)
         nrows = 2
 
         fig, axes = plt.subplots(
@@ -3111,7 +3111,7 @@ class eccDefinition:
                 - omega_gw_average[first_idx])
             if self.debug_plots:
                 style = "APS"
-                use_fancy_plotsettings(style=style)
+                use_fancy_plotsettings(usetex=False, style=style)
                 nrows = 4
                 fig, axes = plt.subplots(
                     nrows=nrows,
diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 458f78c..2cf63c5 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -206,7 +206,7 @@ def check_filter_requirement(t, data_copr_22, data_copr_2m2,
     ratio = max_asym_amp / max_res_amp
 
     if debug_plots:
-        use_fancy_plotsettings(style=style)
+        use_fancy_plotsettings(usetex=False, style=style)
         fig, ax = plt.subplots(
             figsize=(figWidthsTwoColDict[style], figHeightsDict[style]))
         ax.plot(t, asymmetry, label="Asymmetry")
-- 
2.43.0


From 2a2a3ba58339e4646dea1f2d2bda888daa3e9c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 23/37] fix: a diagnostic plot that cannot be made must not
 make the measurement fail

---
 gw_eccentricity/eccDefinition.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 58be544..c375e2f 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2481,10 +2481,18 @@ class eccDefinition:
                           self.debug_level, point_to_verbose_output=True)
 
         if self.debug_plots:
-            # make a plot for diagnostics
-            fig, axes = self.make_diagnostic_plots()
-            self.save_debug_fig(fig, f"gwecc_{self.method}_diagnostics.pdf")
-            plt.close(fig)
+            # make a plot for diagnostics. Some of the plots need quantities
+            # (like the omega_gw average) that are not needed for the
+            # measurement and may not be available.
+            try:
+                fig, axes = self.make_diagnostic_plots()
+                self.save_debug_fig(
+                    fig, f"gwecc_{self.method}_diagnostics.pdf")
+                plt.close(fig)
+            except Exception as error:
+                debug_message(
+                    f"Could not make diagnostic plots. Reason: {error}",
+                    debug_level=self.debug_level, important=True)
         # return measured eccentricity, mean anomaly and reference time or
         # frequency where these are measured.
         return self.make_return_dict_for_eccentricity_and_mean_anomaly()
-- 
2.43.0


From cd353ea124e896f6451027d47e92c1d087ccd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 24/37] fix: precessing measurement without excluding orbits
 before merger

The secular trend of the spin filter is a power law in the time to merger,
which is not defined for data after the merger, so any precessing waveform
with num_orbits_to_exclude_before_merger=None failed with 'Residuals are not
finite in the initial point'. Decide on and apply the filter using the data
before the merger only.
---
 gw_eccentricity/spin_filter.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 2cf63c5..aa265e5 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -891,9 +891,18 @@ def check_and_filter_spin_induced_oscillations(data_dict, data_tag, t_merger,
     # is required, and apply the filter if so. The results are stored in
     # filter_data_dict with keys indicating the data type and whether it's
     # original or filtered.
+    # The secular trend is a power law in the time to merger, so it exists only
+    # before the merger. Data after the merger (available when no orbits are
+    # excluded before merger) are left as they are.
+    n_premerger = np.count_nonzero(data_dict["t"] < t_merger)
+    premerger_data_dict = {"t": data_dict["t"][:n_premerger]}
+    for key in [f"amplm{data_tag}", f"omegalm{data_tag}"]:
+        premerger_data_dict[key] = {
+            mode: data_dict[key][mode][:n_premerger]
+            for mode in [(2, 2), (2, -2)]}
     for data_type in ["amp", "omega"]:
         filter_obj = FilterSpinInducedOscillations(
-            data_dict=deepcopy(data_dict),
+            data_dict=deepcopy(premerger_data_dict),
             data_type=data_type,
             data_tag=data_tag,
             t_merger=t_merger,
@@ -905,7 +914,12 @@ def check_and_filter_spin_induced_oscillations(data_dict, data_tag, t_merger,
             debug_level=filter_kwargs["debug_level"],
         )
 
-        original = filter_obj.data.copy()
+        data_copr_22 = data_dict[f"{data_type}lm{data_tag}"][(2, 2)]
+        data_copr_2m2 = data_dict[f"{data_type}lm{data_tag}"][(2, -2)]
+        postmerger = 0.5 * (
+            data_copr_22[n_premerger:]
+            + (1 if data_type == "amp" else -1) * data_copr_2m2[n_premerger:])
+        original = np.concatenate([filter_obj.data, postmerger])
         base_key = f"{data_type}_gw{data_tag}"
 
         if filter_obj.filtering_required and filter_kwargs["do_not_filter"]:
@@ -928,6 +942,7 @@ def check_and_filter_spin_induced_oscillations(data_dict, data_tag, t_merger,
                 fecc_lo_frac=filter_kwargs["fecc_lo_frac"],
                 fecc_hi_frac=filter_kwargs["fecc_hi_frac"],
             )
+            filtered = np.concatenate([filtered, postmerger])
             filter_data_dict[base_key]                             = filtered
             filter_data_dict[f"{base_key}_original"]               = original
             filter_data_dict[f"{base_key}_filtered"]               = filtered
-- 
2.43.0


From fc97d066fce86546705db44c5fcb6b4fba248911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 25/37] fix: coprecessing frame of systems tilted by more than
 pi/2 from the z axis

---
 gw_eccentricity/load_data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 4b4ab3f..d9c28f8 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1666,8 +1666,13 @@ def get_coprecessing_data_dict(data_dict, ell_min=2, ell_max=2, tag=""):
         r_is_scaled_out=True,
         m_is_scaled_out=True)
 
-    # co-precessing frame modes
-    w_coprecessing = deepcopy(w).to_coprecessing_frame()
+    # co-precessing frame modes. The principal axis is defined only up to its
+    # sign, choose the one along which the binary rotates. By default, it would
+    # be the one closer to the z axis of the inertial frame, which is the
+    # opposite one if the orbital plane is tilted by more than pi/2.
+    idx = w.n_times // 8
+    w_coprecessing = deepcopy(w).to_coprecessing_frame(
+        RoughDirection=-w.LdtVector()[idx], RoughDirectionIndex=idx)
     # Create a copy of data_dict and replace the "hlm" modes in the inertial frame
     # with the corresponding modes in the coprecessing frame
     data_dict_copr = deepcopy(data_dict)
-- 
2.43.0


From 5ea2c22b9357e9d0bc87ffdd273d94752b3ac516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 26/37] fix: FrequencyFits must work for time units in which
 frequencies are small

---
 .../eccDefinitionUsingFrequencyFits.py        | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index bffd0b9..001db49 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -269,10 +269,9 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                 label=(f"{self.label_for_fit_to_data_for_finding_extrema}"
                        "(*p_guess)"))
 
-        p_global, pconv = scipy.optimize.curve_fit(
+        p_global = self.fit_envelope(
             f_fit, self.t[:idx_end],
-            self.data_for_finding_extrema[:idx_end], p0=p0,
-            bounds=bounds0)
+            self.data_for_finding_extrema[:idx_end], p0, bounds0)
         if self.verbose:
             print(f"            result p_global={p_global}")
 
@@ -484,6 +483,18 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         #         - old_extrema=extrema
         #         - update fitting_func by fit to extrema
 
+    def fit_envelope(self, f_fit, t, data, p0, bounds, **kwargs):
+        """Fit the envelope to data, in units of its scale and time scale.
+
+        The fit is done for parameters of order one because curve_fit uses
+        absolute step sizes and tolerances.
+        """
+        scale = np.array([p0[0], -p0[0]/f_fit.t0, -f_fit.t0])
+        p, pconv = scipy.optimize.curve_fit(
+            lambda t, *p: f_fit(t, *(p*scale))/p0[0], t, data/p0[0],
+            p0=p0/scale, bounds=bounds/scale, **kwargs)
+        return p*scale
+
     def FindExtremaNearIdxRef(self,
                               idx_ref,
                               sign, Nbefore, Nafter, K,
@@ -921,9 +932,8 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                     plt.close(fig)
                 return idx_extrema, p, K, idx_ref, [t_extrema, data_extrema,
                                                     phase_gw_extrema]
-            p, pconv = scipy.optimize.curve_fit(f_fit, t_extrema,
-                                                data_extrema, p0=p,
-                                                bounds=bounds, maxfev=10000)
+            p = self.fit_envelope(f_fit, t_extrema, data_extrema, p, bounds,
+                                  maxfev=10000)
             if verbose and False:
                 print("    PRODUCTION FIT: residual="
                       f"{np.linalg.norm(f_fit(t_extrema,*p)-data_extrema)},"
-- 
2.43.0


From b6252bcd1a72275bba34f0c26f0b21d1f447cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 27/37] fix: selection of a segment for fref_in must not depend
 on the unit of time

---
 gw_eccentricity/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index bd6d289..85a85da 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -450,6 +450,11 @@ class QusicircularFitForMappingFrequencyToTime:
                   [10 * f0,
                    10 * f0 / (-self.t0),
                    -self.t0]]
-        res = least_squares(self.residual, p0, bounds=bounds, args=(self.times, self.frequencies),
-                            method='trf', max_nfev=100)
+        # fit parameters of order one, because least_squares uses absolute step
+        # sizes and tolerances
+        scale = np.array([f0, f0 / (-self.t0), -self.t0])
+        res = least_squares(
+            lambda p: self.residual(p * scale, self.times, self.frequencies) / f0,
+            p0 / scale, bounds=bounds / scale, method='trf', max_nfev=100)
+        res.x = res.x * scale
         return res
-- 
2.43.0


From 29dbef3cea3b533865f0885800e125b57d105d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 28/37] fix: merger time of waveforms whose amplitude is
 largest at an end of the data could be outside the data

---
 gw_eccentricity/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index 85a85da..439dbe8 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -71,8 +71,13 @@ def peak_time_via_quadratic_fit(t, func):
 
     yVec = np.array([testFuncs.dot(v1) for v1 in xVecs])
     coefs = np.array([yVec.dot(v1) for v1 in invMat])
-    return t[index] - coefs[1]/(2.*coefs[2]), (coefs[0]
-                                               - coefs[1]**2./4/coefs[2])
+    tpeak = t[index] - coefs[1]/(2.*coefs[2])
+    # If func is largest at one end of the data, the quadratic may have its
+    # extremum far outside the data. Use the largest value in the data then.
+    if not t[0] <= tpeak <= t[-1]:
+        index = np.argmax(func)
+        return t[index], func[index]
+    return tpeak, coefs[0] - coefs[1]**2./4/coefs[2]
 
 
 def check_kwargs_and_set_defaults(user_kwargs=None,
-- 
2.43.0


From 3ba89c2cbd45913f8a54651f99b50a8e16b500ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 29/37] fix: zeroecc EMRI file was looked up in the wrong place
 if the directory's name contains e0

---
 gw_eccentricity/load_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index d9c28f8..d7ce9df 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1966,9 +1966,10 @@ def load_EMRI_waveform(**kwargs):
 
     if kwargs["include_zero_ecc"]:
         if kwargs["filepath_zero_ecc"] is None:
-            idx = kwargs["filepath"].find("e0")
-            kwargs["filepath_zero_ecc"] = (
-                kwargs["filepath"][:idx] + "e0.000.h5")
+            directory, filename = os.path.split(kwargs["filepath"])
+            idx = filename.find("e0")
+            kwargs["filepath_zero_ecc"] = os.path.join(
+                directory, filename[:idx] + "e0.000.h5")
         kwargs_zero_ecc = {
             "filepath": kwargs["filepath_zero_ecc"],
             "include_zero_ecc": False}
-- 
2.43.0


From 546088d3ddc79c127d53f3d1a94445d8e15486b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 30/37] fix: zeroecc EMRI data was not resampled with deltaT
 and could not be used for residual methods

---
 gw_eccentricity/load_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index d7ce9df..4d85a69 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1972,7 +1972,8 @@ def load_EMRI_waveform(**kwargs):
                 directory, filename[:idx] + "e0.000.h5")
         kwargs_zero_ecc = {
             "filepath": kwargs["filepath_zero_ecc"],
-            "include_zero_ecc": False}
+            "include_zero_ecc": False,
+            "deltaT": kwargs["deltaT"]}
         dataDict_zero_ecc = load_EMRI_waveform(**kwargs_zero_ecc)
         dataDict.update({
             "t_zeroecc": dataDict_zero_ecc["t"],
-- 
2.43.0


From 42bc6865d57af4f566f9bd3c769d197576141f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 31/37] fix: zeroecc data could not be generated for LVCNR
 waveforms of unknown mean anomaly

---
 gw_eccentricity/load_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 4d85a69..c5aeeb7 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1351,6 +1351,9 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # waveform with approximant provided in nr_dataDict["params_dict"]
     zero_ecc_kwargs = params_dict.copy()
     zero_ecc_kwargs["ecc"] = 0.0
+    # The mean anomaly plays no role without eccentricity, and may be unknown
+    # for the NR waveform.
+    zero_ecc_kwargs["mean_ano"] = 0.0
     zero_ecc_kwargs["include_zero_ecc"] = False  # to avoid double calc
     # calculate the Momega0 so that the length is >= the length of the NR
     # waveform.
-- 
2.43.0


From ec762c11d5badbadec976a8cbd1e7ab9a6969d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 32/37] fix: restore the merger estimate beyond the end of the
 data (reverts 29dbef3)

Residual methods recognise quasicircular data that ends before its merger by
the vertex of the parabola lying beyond the end of the data.
---
 gw_eccentricity/utils.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index 439dbe8..85a85da 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -71,13 +71,8 @@ def peak_time_via_quadratic_fit(t, func):
 
     yVec = np.array([testFuncs.dot(v1) for v1 in xVecs])
     coefs = np.array([yVec.dot(v1) for v1 in invMat])
-    tpeak = t[index] - coefs[1]/(2.*coefs[2])
-    # If func is largest at one end of the data, the quadratic may have its
-    # extremum far outside the data. Use the largest value in the data then.
-    if not t[0] <= tpeak <= t[-1]:
-        index = np.argmax(func)
-        return t[index], func[index]
-    return tpeak, coefs[0] - coefs[1]**2./4/coefs[2]
+    return t[index] - coefs[1]/(2.*coefs[2]), (coefs[0]
+                                               - coefs[1]**2./4/coefs[2])
 
 
 def check_kwargs_and_set_defaults(user_kwargs=None,
-- 
2.43.0


From 71c6168bb8ab4faaf13325082a44d37bcdeb79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 33/37] fix: an error on one rank of the parallel
 postprocessing left the other ranks waiting forever

---
 .../postprocess/postprocess_cli.py            | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index f9759c4..32f51d8 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -571,16 +571,23 @@ def main() -> None:
     # Each rank parses CLI independently — callables cannot be bcast'd.
     config = build_config_from_cli()
 
-    if rank == MASTER:
-        if config["posterior_type"] == "bilby":
-            posterior = get_bilby_posterior(
-                config["posterior_path"], config["parameter_columns"]
-            )
+    try:
+        if rank == MASTER:
+            if config["posterior_type"] == "bilby":
+                posterior = get_bilby_posterior(
+                    config["posterior_path"], config["parameter_columns"]
+                )
+            else:
+                raise ValueError(f"Unsupported posterior type: {config['posterior_type']!r}")
+            master(posterior, config)
         else:
-            raise ValueError(f"Unsupported posterior type: {config['posterior_type']!r}")
-        master(posterior, config)
-    else:
-        worker(config)
+            worker(config)
+    except Exception:
+        if size > 1:
+            # The other ranks wait for messages that will never come.
+            logger.exception("Rank %d failed. Stopping all ranks.", rank)
+            comm.Abort(1)
+        raise
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 04b33678a447f1549bf380abe694c395c576ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:18 +0000
Subject: [PATCH 34/37] fix: the secular-trend fit of the spin filter must stay
 defined while fitting

---
 gw_eccentricity/spin_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index aa265e5..8dd4cba 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -130,15 +130,19 @@ def _pn_fit_for_secular_trend(t, x, data_type, t_merger):
     # Relativity (2024) 27:4, https://doi.org/10.1007/s41114-024-00050-z
     power = -3.0/8.0 if data_type == "omega" else -1.0/4.0
     A_guess = np.mean(x) # typical amplitude of the data
-    
+    # The model is defined only before its merger time. Keep that time after
+    # the data so that no trial step of the fit can make the model undefined.
+    t_merger_min = t[-1] + 0.5 * (t[-1] - t[-2])
+
     def residuals(params):
         t_merger_p, A, power = params
-        model = _pn_model(t, t_merger_p, A, power)
+        model = _pn_model(t, max(t_merger_p, t_merger_min), A, power)
         return (x - model)
     
     initial_guess = [t_merger, A_guess, power]
     result = least_squares(residuals, initial_guess)
     t_merger_fit, A_fit, power_fit = result.x
+    t_merger_fit = max(t_merger_fit, t_merger_min)
 
     return lambda t: _pn_model(t, t_merger_fit, A_fit, power_fit)
 
-- 
2.43.0


From 1094d903b749274e37a0578dc42d01596c551534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:28 +0000
Subject: [PATCH 35/37] fix: the time scale between spin crossings must stay
 positive outside them

---
 gw_eccentricity/spin_filter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/spin_filter.py b/gw_eccentricity/spin_filter.py
index 8dd4cba..1d3a0f7 100644
--- a/gw_eccentricity/spin_filter.py
+++ b/gw_eccentricity/spin_filter.py
@@ -60,7 +60,12 @@ def _build_delta_T_interpolant(t_mid, delta_t):
     function
         Interpolant function for delta T.
     """
-    return interp1d(t_mid, delta_t, kind='cubic', fill_value='extrapolate')
+    interpolant = interp1d(
+        t_mid, delta_t, kind='cubic', fill_value='extrapolate')
+    # Outside the crossings the cubic may drop to zero or below, which is no
+    # time scale: there would be no segment to filter, and no next segment.
+    delta_t_min = 0.5 * np.min(delta_t)
+    return lambda t: np.maximum(interpolant(t), delta_t_min)
 
 
 def _pn_model(t, t_merger, A, power):
-- 
2.43.0


From 81a03de54a6042f710f7c3b20f8dbfeb13f2b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 36/37] fix: the diagnostic figure lacked its residual panels

---
 gw_eccentricity/eccDefinition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index c375e2f..9104f08 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3539,7 +3539,7 @@ class eccDefinition:
                          self.plot_decc_dt,
                          self.plot_phase_diff_ratio_between_extrema,
                          self.plot_omega_gw_average]
-        if "hlm_zeroecc" in self.dataDict:
+        if "amplm_zeroecc" in self.dataDict:
             # add residual amp_gw plot
             if self.method != "ResidualAmplitude":
                 list_of_plots.append(self.plot_residual_amp_gw)
-- 
2.43.0


From b374da78938d9ef13ac8756bf839fbd2a2a9e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 37/37] fix: plotting orbit averages between extrema failed for
 want of labels

---
 gw_eccentricity/plot_settings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gw_eccentricity/plot_settings.py b/gw_eccentricity/plot_settings.py
index 4447a3c..a776c34 100644
--- a/gw_eccentricity/plot_settings.py
+++ b/gw_eccentricity/plot_settings.py
@@ -198,6 +198,8 @@ labelsDict = {
     "omega_gw_apocenters": r"$\omega^{\mathrm{a}}_{\mathrm{gw}}$",
     "omega_gw_average": r"$\langle\omega_{\mathrm{gw}}\rangle$",
     "omega_gw_average_dimless": r"$\langle\omega_{\mathrm{gw}}\rangle$ [rad/$M$]",
+    "orbit_averaged_omega_gw_pericenters": r"$\langle\omega_{\mathrm{gw}}\rangle^{\mathrm{p}}$",
+    "orbit_averaged_omega_gw_apocenters": r"$\langle\omega_{\mathrm{gw}}\rangle^{\mathrm{a}}$",
     "f_gw_average": r"$\langle f_{\mathrm{gw}}\rangle$",
     "f_gw_average_ref": r"$\langle f_{\mathrm{gw, ref}}\rangle$",
     "f_gw_ref": r"$f_{\mathrm{gw, ref}}$",
-- 
2.43.0

