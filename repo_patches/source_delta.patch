From dbbe12bf9d1b56fac5329e35d263aa6c0724dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:19 +0000
Subject: [PATCH 01/36] fix: energy_from_power no longer extrapolates or drops
 instantaneous power around gaps

The trapezoidal sum counted energy after the last valid measurement
(extrapolating it flat) and lost the valid interval that follows a gap.
---
 rdtools/normalization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 23784a0..718117d 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -501,6 +501,8 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     if time_series.index[0] != union_index[0]:
         # mask leading NaNs
         gap_mask[:time_series.index[0]] = True
+    # nothing is known after the last valid measurement
+    gap_mask[union_index > time_series.index[-1]] = True
 
     time_series = time_series.reindex(union_index)
     t_diffs = np.diff(time_series.index.view('int64'))
@@ -508,9 +510,9 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     if series_type == 'instantaneous':
         # interpolate with trapz sum
         time_series = time_series.interpolate(method='time')
-        time_series[gap_mask] = np.nan
         values = time_series.values
         series_sum = (values[1:] + values[:-1]) / 2 * t_diffs_hours
+        series_sum[gap_mask.values[1:]] = np.nan
     elif series_type == 'right_labeled':
         # bfill and rectangular sum
         time_series = time_series.bfill()
-- 
2.43.0


From f0c9647b2b8d26e9bebacb8b4d0671064a162e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:07 +0000
Subject: [PATCH 02/36] fix: energy_from_power returns missing energy instead
 of raising when no measurement is usable

---
 rdtools/normalization.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 718117d..10869f0 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -498,11 +498,14 @@ def _aggregate(time_series, target_frequency, max_timedelta, series_type):
     max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9
 
     gap_mask = t_diffs > max_interval_nanoseconds
-    if time_series.index[0] != union_index[0]:
-        # mask leading NaNs
-        gap_mask[:time_series.index[0]] = True
-    # nothing is known after the last valid measurement
-    gap_mask[union_index > time_series.index[-1]] = True
+    if time_series.empty:
+        gap_mask[:] = True
+    else:
+        if time_series.index[0] != union_index[0]:
+            # mask leading NaNs
+            gap_mask[:time_series.index[0]] = True
+        # nothing is known after the last valid measurement
+        gap_mask[union_index > time_series.index[-1]] = True
 
     time_series = time_series.reindex(union_index)
     t_diffs = np.diff(time_series.index.view('int64'))
-- 
2.43.0


From 22520086123d6fbf1c9c997fa8af35ffa66ca6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:19 +0000
Subject: [PATCH 03/36] fix: aggregation_insol gives no weight to points
 without a normalized value

---
 rdtools/aggregation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rdtools/aggregation.py b/rdtools/aggregation.py
index 4116c91..dcc9040 100644
--- a/rdtools/aggregation.py
+++ b/rdtools/aggregation.py
@@ -22,7 +22,11 @@ def aggregation_insol(energy_normalized, insolation, frequency='D'):
     aggregated : pandas.Series
         Insolation weighted average, aggregated at frequency
     '''
-    aggregated = (insolation * energy_normalized).resample(frequency, origin='start_day').sum() / \
-        insolation.resample(frequency, origin='start_day').sum()
+    weighted = insolation * energy_normalized
+    # points without a normalized value carry no weight
+    weights = insolation.reindex(weighted.index).where(weighted.notna())
+
+    aggregated = weighted.resample(frequency, origin='start_day').sum() / \
+        weights.resample(frequency, origin='start_day').sum()
 
     return aggregated
-- 
2.43.0


From d7b2f5dc9ab16a13a15877eba7e38aa8d3c90dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:07 +0000
Subject: [PATCH 04/36] fix: Tukey lower fence honours k

---
 rdtools/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 7c3759d..1716546 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1029,7 +1029,7 @@ def _tukey_fence(series, k=1.5):
     p75 = series.quantile(0.75)
     iqr = p75 - p25
     upper_fence = k * iqr + p75
-    lower_fence = p25 - 1.5 * iqr
+    lower_fence = p25 - k * iqr
     return lower_fence, upper_fence
 
 
-- 
2.43.0


From fa9e0951a816ee553a4ed913da19d52668f4a7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:49 +0000
Subject: [PATCH 05/36] fix: usage_of_points counts a start point used by any
 valid slope

---
 rdtools/degradation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 1698b36..931bc15 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -286,7 +286,9 @@ def degradation_year_on_year(energy_normalized, recenter=True,
 
     yoy_result = df.yoy.dropna()
 
-    df_right = df.set_index(df.dt_right).drop_duplicates('dt_right')
+    # a point is a start point if any valid slope starts there
+    df_right = df.dropna(subset=['yoy'])
+    df_right = df_right.set_index(df_right.dt_right).drop_duplicates('dt_right')
     df['usage_of_points'] = df.yoy.notnull().astype(int).add(
                 df_right.yoy.notnull().astype(int), fill_value=0)
 
-- 
2.43.0


From 3f3dc6de476313899515b5ec255a631a18881ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:49 +0000
Subject: [PATCH 06/36] fix: degradation_ols and classical decomposition do not
 rename the caller's series

---
 rdtools/degradation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 931bc15..758af38 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -34,8 +34,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
         and least squares RegressionResults object ('ols_results')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame('energy_normalized')
 
     # calculate a years column as x value for regression, ignoring leap years
     day_diffs = (df.index - df.index[0])
@@ -109,8 +108,7 @@ def degradation_classical_decomposition(energy_normalized,
         Mann-Kendall test trend ('mk_test_trend')
     '''
 
-    energy_normalized.name = 'energy_normalized'
-    df = energy_normalized.to_frame()
+    df = energy_normalized.to_frame('energy_normalized')
 
     df_check_freq = df.copy()
 
-- 
2.43.0


From 67d49c063ec97f95ab5a6ff7b915a60a143cc40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:49 +0000
Subject: [PATCH 07/36] fix: Mann-Kendall variance subtracts the tie correction

---
 rdtools/degradation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 758af38..787b586 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -401,7 +401,7 @@ def _mk_test(x, alpha=0.05):
         tp = np.zeros(unique_x.shape)
         for i in range(len(unique_x)):
             tp[i] = sum(unique_x[i] == x)
-        var_s = (n * (n - 1) * (2 * n + 5) +
+        var_s = (n * (n - 1) * (2 * n + 5) -
                  np.sum(tp * (tp - 1) * (2 * tp + 5))) / 18
 
     if s > 0:
-- 
2.43.0


From 437af40f0c30d2fd3875ba30a29e9b93b85cd9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:34 +0000
Subject: [PATCH 08/36] fix: OLS and classical degradation accept a constant
 series

---
 rdtools/degradation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 787b586..8c605fe 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -42,7 +42,7 @@ def degradation_ols(energy_normalized, confidence_level=68.2):
     df['years'] = df.days / 365.0
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_normalized,
@@ -135,7 +135,7 @@ def degradation_classical_decomposition(energy_normalized,
     df['energy_ma'] = energy_ma
 
     # add intercept-constant to the exogeneous variable
-    df = sm.add_constant(df)
+    df = sm.add_constant(df, has_constant='add')
 
     # perform regression
     ols_model = sm.OLS(endog=df.energy_ma, exog=df.loc[:, ['const', 'years']],
-- 
2.43.0


From 1b18455d4915f17d42cf7286494bdd9f608a6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:45 +0000
Subject: [PATCH 09/36] fix: classical decomposition refuses missing values at
 the edges too

---
 rdtools/degradation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/degradation.py b/rdtools/degradation.py
index 8c605fe..e0583a9 100644
--- a/rdtools/degradation.py
+++ b/rdtools/degradation.py
@@ -116,7 +116,8 @@ def degradation_classical_decomposition(energy_normalized,
     # We can use this to check for missing data and raise a ValueError.
     df_check_freq = df_check_freq.dropna()
 
-    if df_check_freq.index.freq is None:
+    # Missing values at the edges leave the frequency intact.
+    if df_check_freq.index.freq is None or len(df_check_freq) < len(df):
         raise ValueError('Classical decomposition requires a regular time '
                          'series with defined frequency and no missing data.')
 
-- 
2.43.0


From f0d0b15879fb13b06ba1a64b6509ecf552a83399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:52 +0000
Subject: [PATCH 10/36] fix: irradiance_rescale optimises even when the initial
 guess is one

---
 rdtools/normalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 10869f0..59d3c13 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -269,7 +269,8 @@ def irradiance_rescale(irrad, irrad_sim, max_iterations=100,
         # Calculate an initial guess for the rescale factor
         factor = (np.percentile(irrad.dropna(), 90) /
                   np.percentile(irrad_sim.dropna(), 90))
-        prev_factor = 1.0
+        # (without any allowed iteration, only accept series that already match)
+        prev_factor = np.inf if max_iterations > 0 else 1.0
 
         # Iteratively run the optimization,
         # recalculating the clear sky filter each time
-- 
2.43.0


From 800d8d18b614776ff1ce16e669c1aec58c91adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:17 +0000
Subject: [PATCH 11/36] fix: xgboost_clip_filter does not carry clipping levels
 past the last clipped day

---
 rdtools/filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 1716546..bf7735c 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -884,7 +884,8 @@ def xgboost_clip_filter(power_ac, mounting_type="fixed"):
     power_ac_df = _calculate_xgboost_model_features(power_ac_df, sampling_frequency)
     # Add back in XGB predictions for the original dataframe
     power_ac_df["xgb_predictions"] = xgb_predictions.astype(bool)
-    power_ac_df_clipping = power_ac_df[power_ac_df["xgb_predictions"].fillna(False)]
+    # Keep all timestamps, so that days without clipping have no clipping levels.
+    power_ac_df_clipping = power_ac_df.where(power_ac_df["xgb_predictions"])
     # Make everything between the
     # max and min values found for clipping each day as clipping.
     power_ac_df_clipping_max = power_ac_df_clipping["scaled_value"].resample("D").max()
-- 
2.43.0


From a0c628dc180e68e9701bdc2371f9a4e30a02d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:16 +0000
Subject: [PATCH 12/36] fix: logic_clip_filter accepts duplicated timestamps
 inside clipping periods

---
 rdtools/filtering.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index bf7735c..24b3dd0 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -640,8 +640,7 @@ def logic_clip_filter(
     if original_time_series_sampling_frequency < 10:
         clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
         # Subset the series where clipping filter == True
-        clip_pwr = power_ac_copy[clipping]
-        clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
+        clip_pwr = power_ac_copy.where(clipping)
         # Set any values within the clipping max + clipping min threshold
         # as clipping. This is done specifically for capturing the noise
         # for high frequency data sets.
@@ -663,8 +662,7 @@ def logic_clip_filter(
         # Find the maximum and minimum power_ac level where clipping is
         # detected each day.
         clipping = clipping.reindex(index=power_ac_copy.index, method="ffill")
-        clip_pwr = power_ac_copy[clipping]
-        clip_pwr = clip_pwr.reindex(index=power_ac_copy.index, fill_value=np.nan)
+        clip_pwr = power_ac_copy.where(clipping)
         daily_clipping_max = clip_pwr.resample("D").max()
         daily_clipping_min = clip_pwr.resample("D").min()
         daily_clipping_min = daily_clipping_min.reindex(
-- 
2.43.0


From c5c77a328112ad1c85ca46c138284fd0a0358122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:03 +0000
Subject: [PATCH 13/36] fix: SRR assigns replacement levels to the invalid
 intervals they were drawn for

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 92a3bfb..005d4d0 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -456,7 +456,7 @@ class SRRAnalysis():
                     invalid_intervals['previous_end'].fillna(1.0)
                 invalid_intervals['next_start'] = \
                     invalid_intervals['next_start'].fillna(1.0)
-                groups = set(invalid_intervals.group)
+                groups = sorted(set(invalid_intervals.group))
                 replace_levels = []
 
                 if len(groups) > 0:
-- 
2.43.0


From 868c0ff2a5f63e7815a7b5f741d303387381c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:10 +0000
Subject: [PATCH 14/36] fix: SRR counts days since cleaning across
 daylight-saving changes

---
 rdtools/soiling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 005d4d0..77ce571 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -325,7 +325,7 @@ class SRRAnalysis():
         pm_frame_out['loss_perfect_clean'] = np.nan
         pm_frame_out['loss_inferred_clean'] = np.nan
         pm_frame_out['days_since_clean'] = \
-            (pm_frame_out.index - pm_frame_out.start).dt.days
+            (pm_frame_out.index - pm_frame_out.start).dt.round('D').dt.days
 
         # Calculate the daily derate
         pm_frame_out['loss_perfect_clean'] = \
@@ -490,7 +490,7 @@ class SRRAnalysis():
                              .set_index('date')
             df_rand['loss'] = np.nan
             df_rand['days_since_clean'] = \
-                (df_rand.index - df_rand.start).dt.days
+                (df_rand.index - df_rand.start).dt.round('D').dt.days
             df_rand['loss'] = df_rand.start_loss + \
                 df_rand.days_since_clean * df_rand.run_slope
 
-- 
2.43.0


From 89cd82d0a4621e67ddb3e5d3d7a629ee0eb33774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:31 +0000
Subject: [PATCH 15/36] fix: availability spreads an outage's loss over all of
 its intervals

---
 rdtools/availability.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 06d5778..865b678 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -498,12 +498,13 @@ class AvailabilityAnalysis:
         # scaling the expected power signal to match the actual
         lost_power_full = pd.Series(0, index=self.loss_subsystem.index, dtype=float)
         expected_power = self.power_expected
+        expected_energy = rdtools.energy_from_power(expected_power)
         corrected_cumulative_energy = self.energy_cumulative.copy()
         for i, row in self.outage_info.iterrows():
             start = row['start']
             end = row['end']
             subset = expected_power.loc[start:end].copy()
-            subset_energy = rdtools.energy_from_power(subset)
+            subset_energy = expected_energy.loc[start:end]
             loss_fill = subset * row['loss'] / subset_energy.sum()
             lost_power_full.loc[subset.index] += loss_fill
 
-- 
2.43.0


From a59a0e2a51cc366cce7ef672b0437d73c8595479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 16/36] fix: an outage at the start of the record has no
 reading before it

---
 rdtools/availability.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 865b678..216e8df 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -439,7 +439,12 @@ class AvailabilityAnalysis:
 
             # self.cumulative_energy[start] is the first value in the outage.
             # so to get the starting energy, need to get previous value:
-            start_minus_one = all_times[all_times.get_loc(start)-1]
+            # (not available if the outage starts at the first timestamp)
+            start_loc = all_times.get_loc(start)
+            if start_loc > 0:
+                energy_start = self.energy_cumulative.iloc[start_loc - 1]
+            else:
+                energy_start = np.nan
 
             data = {
                 'start': start,
@@ -450,7 +455,7 @@ class AvailabilityAnalysis:
                 'error_lower': self.interp_lower(daylight_intervals),
                 'error_upper': self.interp_upper(daylight_intervals),
                 'energy_expected': outage_expected_energy.sum(),
-                'energy_start': self.energy_cumulative[start_minus_one],
+                'energy_start': energy_start,
                 'energy_end': self.energy_cumulative[end],
             }
             outage_data.append(data)
-- 
2.43.0


From 75f06e34e9668e9c552e3fe2e81bdf9e699a5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:57 +0000
Subject: [PATCH 17/36] fix: clear-sky analysis works without clearsky_filter
 configured

---
 rdtools/analysis_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 9492bad..e680469 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -597,7 +597,7 @@ class TrendAnalysis:
             )
             filter_components["hour_angle_filter"] = f
 
-        if case == "clearsky":
+        if case == "clearsky" and "clearsky_filter" in self.filter_params:
             filter_components["clearsky_filter"] = _call_clearsky_filter(
                 "clearsky_filter"
             )
-- 
2.43.0


From fe2bee624cd80d16b3a6def5859fc5189636ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:57 +0000
Subject: [PATCH 18/36] fix: sensor_clearsky_filter is used only in the sensor
 analysis

---
 rdtools/analysis_chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index e680469..6eeea15 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -602,7 +602,7 @@ class TrendAnalysis:
                 "clearsky_filter"
             )
 
-        if "sensor_clearsky_filter" in self.filter_params:
+        if case == "sensor" and "sensor_clearsky_filter" in self.filter_params:
             filter_components["sensor_clearsky_filter"] = _call_clearsky_filter(
                 "sensor_clearsky_filter"
             )
-- 
2.43.0


From e0796213f5f78e8fbd3bf9daa9d43e2120458c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:57 +0000
Subject: [PATCH 19/36] fix: missing entries of an ad hoc filter are not
 overwritten in the user's series

---
 rdtools/analysis_chains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 6eeea15..3c3c714 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -619,6 +619,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter = ad_hoc_filter.copy()
                 ad_hoc_filter.loc[ad_hoc_filter.isnull()] = False
 
             if not filter_components.index.equals(ad_hoc_filter.index):
@@ -709,6 +710,7 @@ class TrendAnalysis:
                 warnings.warn(
                     "aggregated ad_hoc_filter contains NaN values; setting to False (excluding)"
                 )
+                ad_hoc_filter_aggregated = ad_hoc_filter_aggregated.copy()
                 ad_hoc_filter_aggregated.loc[ad_hoc_filter_aggregated.isnull()] = False
 
             if not filter_components_aggregated.index.equals(
-- 
2.43.0


From ceb317c9ccf7b49e2392603be511895003fdb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:57 +0000
Subject: [PATCH 20/36] fix: filter parameters are validated by setdefault and
 |= as well, update takes iterators

---
 rdtools/analysis_chains.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rdtools/analysis_chains.py b/rdtools/analysis_chains.py
index 3c3c714..76ee768 100644
--- a/rdtools/analysis_chains.py
+++ b/rdtools/analysis_chains.py
@@ -1285,10 +1285,20 @@ class ValidatedFilterDict(dict):
         super(ValidatedFilterDict, self).__setitem__(key, value)
 
     def update(self, *args, **kwargs):
-        for key in dict(*args, **kwargs).keys():
+        new_params = dict(*args, **kwargs)
+        for key in new_params:
             if key not in self.valid_keys:
                 raise KeyError(self._err_msg.format(key))
-        super(ValidatedFilterDict, self).update(*args, **kwargs)
+        super(ValidatedFilterDict, self).update(new_params)
+
+    def setdefault(self, key, default=None):
+        if key not in self.valid_keys:
+            raise KeyError(self._err_msg.format(key))
+        return super(ValidatedFilterDict, self).setdefault(key, default)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
 
     def _validate_keys(self):
         for key in self.keys():
-- 
2.43.0


From 3fe2ef0e30d023954b5d75566b50fdae2d23ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:32 +0000
Subject: [PATCH 21/36] fix: clear-sky temperature in zones whose midnight is
 repeated

---
 rdtools/clearsky_temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index ebe617f..d312949 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -62,7 +62,7 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
-    dt_daily = dt_daily.tz_localize(times.tz, ambiguous='infer',
+    dt_daily = dt_daily.tz_localize(times.tz, ambiguous=np.ones(len(dt_daily), dtype=bool),
                                     nonexistent='shift_forward')
 
     f = h5py.File(filepath, "r")
-- 
2.43.0


From 4b336340b205483aad272c92cb46c93add5a2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:11 +0000
Subject: [PATCH 22/36] fix: clear-sky temperature just west of the date line
 uses the wrapped grid cell

---
 rdtools/clearsky_temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index d312949..6d0a2b5 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -76,7 +76,7 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     lon_temp = longitude - 180
     if lon_temp < 0:
         lon_temp += 360
-    lon_index = round(float(lons) * float(lon_temp) / 360.0)
+    lon_index = round(float(lons) * float(lon_temp) / 360.0) % lons
     lat_index = round(float(lats) * (90.0 - float(latitude)) / 180.0)
 
     df = pd.DataFrame(index=dt_daily)
-- 
2.43.0


From 55ad1a5af9ee905783584000321a2010fe428561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:30 +0000
Subject: [PATCH 23/36] fix: clear-sky temperature is interpolated in time
 between the daily climatology

---
 rdtools/clearsky_temperature.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/rdtools/clearsky_temperature.py b/rdtools/clearsky_temperature.py
index 6d0a2b5..920dbc6 100644
--- a/rdtools/clearsky_temperature.py
+++ b/rdtools/clearsky_temperature.py
@@ -49,17 +49,6 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
 
     buffer = timedelta(days=window_size)
 
-    if times.freq is None:
-        freq_actual = pd.infer_freq(times)
-        if freq_actual is None:
-            times._engine.clear_mapping()
-            # workaround from https://github.com/pandas-dev/pandas/issues/55794
-            freq_actual = pd.infer_freq(times[:10])
-            warnings.warn("Input 'times' has no frequency attribute. "
-                          "Inferring frequency from first 10 timestamps.")
-    else:
-        freq_actual = times.freq
-
     dt_daily = pd.date_range(times.date[0] - buffer, times.date[-1] + buffer,
                              freq='D')
     dt_daily = dt_daily.tz_localize(times.tz, ambiguous=np.ones(len(dt_daily), dtype=bool),
@@ -101,10 +90,12 @@ def get_clearsky_tamb(times, latitude, longitude, window_size=40,
     df = df.rolling(window=window_size, win_type='gaussian', min_periods=1,
                     center=True).mean(std=gauss_std)
 
-    df = df.resample(freq_actual).interpolate(method='linear')
+    # the daily values need not fall on a grid of the requested frequency (e.g. after
+    # a DST change), so interpolate in time at the requested timestamps themselves
+    df = df.reindex(df.index.union(times).unique()).interpolate(method='time')
     df['month'] = df.index.month
 
-    df = df.reindex(times, method='nearest')
+    df = df.reindex(times)
 
     utc_offsets = [y.utcoffset().total_seconds() / 3600.0 for y in df.index]
 
-- 
2.43.0


From 32a9dae65de1ea1c47d253042e74e1752544f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 24/36] fix: hour_angle_filter for timestamps not in the site's
 own zone and on days of DST changes

---
 rdtools/filtering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 24b3dd0..0a98d4b 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -1101,7 +1101,11 @@ def hour_angle_filter(series, lat, lon, min_hour_angle=-30, max_hour_angle=30):
     times = series.index
     spa = pvlib.solarposition.get_solarposition(times, lat, lon)
     eot = spa["equation_of_time"]
-    hour_angle = pvlib.solarposition.hour_angle(times, lon, eot)
+    # in UTC, days have 24 hours (no DST changes)
+    times_utc = times if times.tz is None else times.tz_convert("UTC")
+    hour_angle = pvlib.solarposition.hour_angle(times_utc, lon, eot)
+    # the UTC day need not coincide with the solar day: bring into [-180, 180)
+    hour_angle = (hour_angle + 180) % 360 - 180
     hour_angle = pd.Series(hour_angle, index=times)
     mask = (hour_angle >= min_hour_angle) & (hour_angle <= max_hour_angle)
 
-- 
2.43.0


From dab6fa91e5eae740bb8e041231606152a45402f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:13 +0000
Subject: [PATCH 25/36] fix: CODS soiling loss bound is in percent when the
 soiling signal is small

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 77ce571..21b4be8 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1767,7 +1767,7 @@ class CODSAnalysis():
             self.residual_shift = results[np.argmax(weights)]['residual_shift']
             YOY = RdToolsDeg.degradation_year_on_year(pi)
             self.degradation = [YOY[0], YOY[1][0], YOY[1][1]]
-            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean()]
+            self.soiling_loss = [0, 0, (1 - result_df.soiling_ratio).mean() * 100]
             self.small_soiling_signal = True
             self.errors = (
                 'Soiling signal is small relative to the noise. '
-- 
2.43.0


From 137d4fb7928db62fcb78fc4aa1b47b554b163668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:13 +0000
Subject: [PATCH 26/36] fix: CODS reports soiling rates also when the soiling
 ratio is not clipped

---
 rdtools/soiling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 21b4be8..dc0a713 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -2157,8 +2157,8 @@ class CODSAnalysis():
             # 6: Force soiling ratio to not exceed 1:
             if clip_soiling:
                 dfk['soiling_ratio'] = dfk['soiling_ratio'].clip(upper=1)
-                dfk.soiling_rates = dfk.smooth_rates
-                dfk.loc[dfk.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
+            dfk.soiling_rates = dfk.smooth_rates
+            dfk.loc[dfk.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
 
         # Set number of days since cleaning event
         nr_days_dummy = pd.Series(index=dfk.index, data=np.nan)
-- 
2.43.0


From 2c52c10f8d725a56b5df104232e3f9d0b9a322d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:13 +0000
Subject: [PATCH 27/36] fix: CODS bootstrap reports the soiling ratio of the
 best initial fit

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index dc0a713..2178f85 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1758,7 +1758,7 @@ class CODSAnalysis():
 
         # Save best model
         self.initial_fits = [df for df in list_of_df_out]
-        result_df = list_of_df_out[np.argmax(weights)]
+        result_df = df_out = list_of_df_out[np.argmax(weights)].copy()
 
         # If more than half of the model fits indicate small soiling signal,
         # don't do bootstrapping
-- 
2.43.0


From fc01aa78ea4b065a49a559fa030f18a2043bee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:13 +0000
Subject: [PATCH 28/36] fix: CODS bootstrap fits every combination of the
 alternatives given

---
 rdtools/soiling.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 2178f85..08ff356 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1680,11 +1680,8 @@ class CODSAnalysis():
                                   cleaning_sensitivity_alternatives,
                                   clean_pruning_sensitivity_alternatives,
                                   forward_fill_alternatives]
-        index_list = list(itertools.product([0, 1], repeat=len(parameter_alternatives)))
-        combination_of_parameters = [[parameter_alternatives[j][indexes[j]]
-                                     for j in range(len(parameter_alternatives))]
-                                     for indexes in index_list]
-        nr_models = len(index_list)
+        combination_of_parameters = [list(c) for c in itertools.product(*parameter_alternatives)]
+        nr_models = len(combination_of_parameters)
         bootstrap_samples_list, list_of_df_out, results = [], [], []
 
         # Check boostrap number
-- 
2.43.0


From 5978130e9a3681b306948412b4fbbd0337700820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:13 +0000
Subject: [PATCH 29/36] fix: CODS bootstrap when some initial fits do not give
 stationary residuals

---
 rdtools/soiling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 08ff356..61fe114 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1782,8 +1782,9 @@ class CODSAnalysis():
         # components, by perturbing amplitude and phase shift
         # Number of samples per fit:
         sample_nr = int(reps / nr_models)
-        list_of_SCs = [list_of_df_out[m].seasonal_component
-                       for m in range(nr_models) if weights[m] > 0]
+        list_of_SCs = [df.seasonal_component for df, r in zip(list_of_df_out, results)
+                       if r['adf_res'][1] < .05]
+        reps = all_bootstrap_samples.shape[1]
         seasonal_samples = _make_seasonal_samples(list_of_SCs,
                                                   sample_nr=sample_nr,
                                                   min_multiplier=.8,
-- 
2.43.0


From 111debc1cb9779bc7d7a0ae4eae32c5fc4485b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:39 +0000
Subject: [PATCH 30/36] fix: CODS orders in which the soiling ratio comes third

---
 rdtools/soiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index 61fe114..ec1bea1 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1362,7 +1362,7 @@ class CODSAnalysis():
 
             # Find soiling component
             if order[(ic-1) % n_steps] == 'SR':
-                if ic > 2:  # Add possible cleaning events found by considering
+                if ic > 2 and soiling_dfs:  # Add possible cleaning events found by considering
                     # the residuals
                     pce = soiling_dfs[-1].cleaning_events.copy()
                     cleaning_sensitivity *= 1.2  # decrease sensitivity
-- 
2.43.0


From e23d6b50b66c131108fb2ddfde98411e36b2916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:32 +0000
Subject: [PATCH 31/36] fix: CODS bootstrapped soiling on days that some
 realizations do not cover

The weighted mean of the realizations counted a realization without a value
for a day as zero, so that the bootstrapped soiling ratio of the first days
fell below every realization.
---
 rdtools/soiling.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rdtools/soiling.py b/rdtools/soiling.py
index ec1bea1..7782fc5 100644
--- a/rdtools/soiling.py
+++ b/rdtools/soiling.py
@@ -1887,11 +1887,15 @@ class CODSAnalysis():
         # Save best estimate and bootstrapped estimates of SR and soiling rates
         df_out.soiling_ratio = df_out.soiling_ratio.clip(lower=0, upper=1)
         df_out.loc[df_out.soiling_ratio.diff() == 0, 'soiling_rates'] = 0
-        df_out['bt_soiling_ratio'] = (concat_SR * weights).sum(1)
-        df_out['bt_soiling_rates'] = (concat_r_s * weights).sum(1)
+        # (a realization does not cover the days before its first value)
+        df_out['bt_soiling_ratio'] = \
+            (concat_SR * weights).sum(1) / (concat_SR.notna() * weights).sum(1)
+        df_out['bt_soiling_rates'] = \
+            (concat_r_s * weights).sum(1) / (concat_r_s.notna() * weights).sum(1)
 
         # Set probability of cleaning events
-        df_out.cleaning_events = (concat_ce * weights).sum(1)
+        df_out.cleaning_events = \
+            (concat_ce * weights).sum(1) / (concat_ce.notna() * weights).sum(1)
 
         # Find degradation rates
         self.degradation = [np.dot(bt_deg, weights),
-- 
2.43.0


From 3e50373cec0f38c5247738d374d6b8e3bf9f3706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:49 +0000
Subject: [PATCH 32/36] fix: energy, interpolation and normalization of series
 whose timestamps are not in nanoseconds

The time steps are taken from the integer values of the index, which count
nanoseconds only for a nanosecond index. A series with the same timestamps
in microseconds, milliseconds or seconds gave wrong energies and missing
values.
---
 rdtools/normalization.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index 59d3c13..ebdad33 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -42,6 +42,8 @@ def normalize_with_expected_power(pv, power_expected, poa_global,
     '''
 
     freq = _check_series_frequency(pv, 'pv')
+    pv, power_expected, poa_global = [
+        _nanosecond_resolution(x) for x in (pv, power_expected, poa_global)]
 
     if pv_input == 'power':
         energy = energy_from_power(pv, freq, power_type='right_labeled')
@@ -193,6 +195,8 @@ def _delta_index(series):
         The average timestep
     '''
 
+    series = _nanosecond_resolution(series)
+
     if series.index.freq is None:
         # If there is no frequency information, explicitly calculate interval
         # sizes. Length of each interval calculated by using 'int64' to convert
@@ -339,6 +343,19 @@ def _check_series_frequency(series, series_description):
 check_series_frequency = deprecated('2.0.0', removal='3.0.0')(_check_series_frequency)
 
 
+def _nanosecond_resolution(data):
+    '''
+    return a DatetimeIndex, or a copy of a series with a DatetimeIndex, with
+    timestamps in nanoseconds, whatever their resolution
+    '''
+    if isinstance(data, pd.DatetimeIndex):
+        # before pandas 2.0 all timestamps are in nanoseconds
+        return data.as_unit('ns') if hasattr(data, 'as_unit') else data
+    data = data.copy()
+    data.index = _nanosecond_resolution(data.index)
+    return data
+
+
 def _t_step_nanoseconds(time_series):
     '''
     return a series of right labeled differences in the index of time_series
@@ -387,6 +404,8 @@ def energy_from_power(power, target_frequency=None, max_timedelta=None,
         raise ValueError('power must be a pandas series with a '
                          'DatetimeIndex')
 
+    power = _nanosecond_resolution(power)
+
     if len(power) <= 1:
         # just one value, doesn't make sense to interpolate or trapz aggregate.
         # use the index frequency to determine the appropriate timescale
@@ -575,7 +594,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
     original_name = time_series.name
 
     # copy, rename, and make df from input
-    time_series = time_series.copy()
+    time_series = _nanosecond_resolution(time_series)
     time_series.name = 'data'
     df = pd.DataFrame(time_series)
     df = df.dropna()
@@ -601,7 +620,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
                       UserWarning)
 
     # put data on index that includes both original and target indicies
-    target_timestamps = pd.Index(target_index.view('int64'))
+    target_timestamps = pd.Index(_nanosecond_resolution(target_index).view('int64'))
     union_index = df.index.append(target_timestamps)
     union_index = union_index.drop_duplicates(keep='first')
     df = df.reindex(union_index)
@@ -621,8 +640,7 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
     out = pd.Series(df['interpolated_data'])
     out = out.loc[target_timestamps]
     out.name = original_name
-    out.index = pd.to_datetime(out.index, utc=True).tz_convert(target_index.tz)
-    out = out.reindex(target_index)
+    out.index = target_index
 
     return out
 
-- 
2.43.0


From f135a6d3c74a5f3c759d4790464876090f886715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:01 +0000
Subject: [PATCH 33/36] fix: two-way window and directional Tukey filters on an
 index not in nanoseconds

The forward medians were left in reversed order, and pandas joins a daily
index in microseconds (milliseconds, seconds) with its reversal to an index
with invented timestamps, so that the masks were wrong.
---
 rdtools/filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdtools/filtering.py b/rdtools/filtering.py
index 0a98d4b..9219656 100644
--- a/rdtools/filtering.py
+++ b/rdtools/filtering.py
@@ -951,7 +951,7 @@ def two_way_window_filter(
     backward_median = series.rolling(roll_period, min_periods=5, closed="both").median()
     forward_median = (
         series.loc[::-1].rolling(roll_period, min_periods=5, closed="both").median()
-    )
+    ).iloc[::-1]
 
     backward_dif = abs(series - backward_median)
     forward_dif = abs(series - forward_median)
@@ -1060,7 +1060,7 @@ def directional_tukey_filter(series, roll_period=pd.to_timedelta("7 Days"), k=1.
     backward_median = series.rolling(roll_period, min_periods=5, closed="both").median()
     forward_median = (
         series.loc[::-1].rolling(roll_period, min_periods=5, closed="both").median()
-    )
+    ).iloc[::-1]
     backward_dif = series - backward_median
     forward_dif = series - forward_median
 
-- 
2.43.0


From a1346e36ca5989b9ddacca0efc0c500cc786e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:59 +0000
Subject: [PATCH 34/36] fix: availability error bounds at outage lengths
 without a complete window

When missing power readings leave no complete window of some length, the
bounds of outages near that length were missing, so that every such outage
counted as a communication interruption without loss. Such lengths are now
left out, like those for which no window exists at all.
---
 rdtools/availability.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdtools/availability.py b/rdtools/availability.py
index 216e8df..0acd587 100644
--- a/rdtools/availability.py
+++ b/rdtools/availability.py
@@ -370,6 +370,9 @@ class AvailabilityAnalysis:
         # length. linear interp inside the range, nearest neighbor outside the
         # range.
         def interp(series):
+            # lengths without any complete window say nothing about the error
+            if series.notna().any():
+                series = series.dropna()
             return interp1d(series.index, series.values,
                             fill_value=(series.values[0], series.values[-1]),
                             bounds_error=False)
-- 
2.43.0


From f91d0df776061ab8324ea97993693e86dacf749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:01 +0000
Subject: [PATCH 35/36] fix: degradation summary plot of fewer than 40
 year-on-year rates

The default number of histogram bins was zero, so that the summary of e.g.
three years of monthly data could not be plotted.
---
 rdtools/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdtools/plotting.py b/rdtools/plotting.py
index 93a07ba..efb8fbb 100644
--- a/rdtools/plotting.py
+++ b/rdtools/plotting.py
@@ -72,7 +72,7 @@ def degradation_summary_plots(yoy_rd, yoy_ci, yoy_info, normalized_yield,
     yoy_values = yoy_info['YoY_values']
 
     if bins is None:
-        bins = len(yoy_values) // 40
+        bins = max(len(yoy_values) // 40, 1)
 
     bins = int(min(bins, len(yoy_values)))
 
-- 
2.43.0


From 974d67e88ac90bedcc3c26b8e0e9c48acb354f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:08 +0000
Subject: [PATCH 36/36] fix: interpolation at the only recorded value of a
 series

---
 rdtools/normalization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdtools/normalization.py b/rdtools/normalization.py
index ebdad33..37b0b78 100644
--- a/rdtools/normalization.py
+++ b/rdtools/normalization.py
@@ -608,7 +608,9 @@ def _interpolate_series(time_series, target_index, max_timedelta=None,
     valid_indput_index = df.index.copy()
 
     if max_timedelta is None:
-        max_interval_nanoseconds = 2 * df['gapsize_ns'].median()
+        # a single recorded value has no gaps to take the median of
+        max_interval_nanoseconds = \
+            2 * df['gapsize_ns'].median() if len(df) > 1 else 0
     else:
         max_interval_nanoseconds = max_timedelta.total_seconds() * 10.0**9
 
-- 
2.43.0

