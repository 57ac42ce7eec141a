From a09ced54b3b2eac87b92a23b249192a6c609b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:58 +0000
Subject: [PATCH 001/105] fix: keep a min/max of 0 when a numeric column is
 updated in batches

---
 dataprofiler/profilers/numerical_column_stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fa0666a..96f30f7 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1770,7 +1770,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         min_value = df_series.min()
-        self.min = min_value if not self.min else min(self.min, min_value)
+        self.min = min_value if self.min is None else min(self.min, min_value)
         subset_properties["min"] = min_value
 
     @BaseColumnProfiler._timeit(name="max")
@@ -1781,7 +1781,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         subset_properties: dict,
     ) -> None:
         max_value = df_series.max()
-        self.max = max_value if not self.max else max(self.max, max_value)
+        self.max = max_value if self.max is None else max(self.max, max_value)
         subset_properties["max"] = max_value
 
     @BaseColumnProfiler._timeit(name="sum")
-- 
2.43.0


From ef57cc8504c0e37d90a8a497a1ee6c779ce8006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:10 +0000
Subject: [PATCH 002/105] fix: weigh batches by their own size when updating
 the precision variance

---
 dataprofiler/profilers/float_column_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index bc426a4..6cfd47f 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -379,7 +379,6 @@ class FloatColumn(
                 self._precision["max"], subset_precision["max"]
             )
             self._precision["sum"] += subset_precision["sum"]
-            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["biased_var"] = self._merge_biased_variance(
                 self._precision["sample_size"],
@@ -389,6 +388,7 @@ class FloatColumn(
                 subset_precision["biased_var"],
                 subset_precision["mean"],
             )
+            self._precision["sample_size"] += subset_precision["sample_size"]
 
             self._precision["mean"] = (
                 self._precision["sum"] / self._precision["sample_size"]
-- 
2.43.0


From 9d3685655cea0485e6fb1fc6966bc1282c1cbd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:10 +0000
Subject: [PATCH 003/105] fix: keep the string/text distinction when merging
 text columns

---
 dataprofiler/profilers/text_column_profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index bea8dbd..5969a41 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -66,6 +66,8 @@ class TextColumn(
         if "vocab" in merged_profile.__calculations:
             merged_profile.vocab = self.vocab.copy()
             merged_profile._update_vocab(other.vocab)
+        if merged_profile.max:
+            merged_profile.type = "string" if merged_profile.max <= 255 else "text"
         return merged_profile
 
     def report(self, remove_disabled_flag: bool = False) -> dict:
-- 
2.43.0


From 62cbb559b362f951f52e6e441ae80fa0b7cefdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:29 +0000
Subject: [PATCH 004/105] fix: report the same kurtosis for constant data
 however it is batched

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 96f30f7..7bc5c73 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1022,7 +1022,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         M2_2 = match_count2 * biased_variance2
         M2 = M2_1 + M2_2 + delta**2 * match_count1 * match_count2 / N
         if not M2:
-            return 0.0
+            return -3.0
 
         M3_1: np.float64 = biased_skewness1 * np.sqrt(M2_1**3) / np.sqrt(match_count1)
         M3_2: np.float64 = biased_skewness2 * np.sqrt(M2_2**3) / np.sqrt(match_count2)
-- 
2.43.0


From 3eaf6feef8b9b6844cb537d84697239b778ec67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:29 +0000
Subject: [PATCH 005/105] fix: do not extend the caller's omit_keys list in
 compact reports

---
 dataprofiler/profilers/helpers/report_helpers.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 0588252..96ec553 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -124,15 +124,13 @@ def _prepare_report(
     max_array_len = 5
 
     if output_format == "compact":
-        omit_keys.extend(
-            [
-                "data_stats.*.statistics.times",
-                "data_stats.*.statistics.avg_predictions",
-                "data_stats.*.statistics.data_label_representation",
-                "data_stats.*.statistics.null_types_index",
-                "data_stats.*.statistics.histogram",
-            ]
-        )
+        omit_keys = omit_keys + [
+            "data_stats.*.statistics.times",
+            "data_stats.*.statistics.avg_predictions",
+            "data_stats.*.statistics.data_label_representation",
+            "data_stats.*.statistics.null_types_index",
+            "data_stats.*.statistics.histogram",
+        ]
         output_format = "pretty"
 
     for key in report:
-- 
2.43.0


From c880eaf4f0b4485d7221672d0b907392506f72a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:29 +0000
Subject: [PATCH 006/105] fix: diff against a column without any value no
 longer divides by zero

---
 dataprofiler/profilers/categorical_column_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 1ca6309..5859617 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -318,8 +318,10 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
 
             total_psi = 0.0
             for iter_key in self_cat_count.keys():
-                percent_self = self_cat_count[iter_key] / self.sample_size
-                percent_other = other_cat_count[iter_key] / other_profile.sample_size
+                percent_self = self_cat_count[iter_key] / max(self.sample_size, 1)
+                percent_other = other_cat_count[iter_key] / max(
+                    other_profile.sample_size, 1
+                )
                 if (percent_other != 0) and (percent_self != 0):
                     total_psi += (percent_other - percent_self) * math.log(
                         percent_other / percent_self
-- 
2.43.0


From 7d42995d5fb0c259dc0971e14e3a1d2557761afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:25 +0000
Subject: [PATCH 007/105] fix: report a merged profile whose histogram bin
 count is set by the user

---
 dataprofiler/profilers/numerical_column_stats.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 7bc5c73..44ab2b1 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -255,11 +255,15 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         self._stored_histogram["histogram"]["current_loss"] = aggregate_histogram_loss
         self._stored_histogram["histogram"]["total_loss"] = aggregate_histogram_loss
 
-        if self.user_set_histogram_bin is None:
-            for method in self.histogram_bin_method_names:
+        for method in self.histogram_bin_method_names:
+            if self.user_set_histogram_bin is None:
                 self.histogram_methods[method][
                     "suggested_bin_count"
                 ] = histogram_utils._calculate_bins_from_profile(self, method)
+            else:
+                self.histogram_methods[method][
+                    "suggested_bin_count"
+                ] = self.user_set_histogram_bin
 
         self._get_quantiles()
 
-- 
2.43.0


From 809cf1eae1cff7a14803c21cb475740387f4340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:41 +0000
Subject: [PATCH 008/105] fix: bin both histograms over the same edges before
 calculating PSI

---
 dataprofiler/profilers/numerical_column_stats.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 44ab2b1..0c90fec 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -706,10 +706,11 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             new_other_histogram["bin_edges"] = other_histogram["bin_edges"]
             new_other_histogram["bin_counts"] = other_histogram["bin_counts"]
 
-            len_self_bin_counts = len(self_histogram["bin_counts"])
+            # both histograms have to use these edges to be comparable
+            psi_bin_edges = np.linspace(min_min_edge, max_max_edge, num_psi_bins + 1)
 
             # re-calculate `self` histogram
-            if len_self_bin_counts != num_psi_bins:
+            if not np.array_equal(self_histogram["bin_edges"], psi_bin_edges):
                 histogram, hist_loss = self._regenerate_histogram(
                     entity_count_per_bin=self_histogram["bin_counts"],
                     bin_edges=self_histogram["bin_edges"],
@@ -726,14 +727,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 new_self_histogram["bin_edges"] = histogram["bin_edges"]
 
             # re-calculate `other_profile` histogram
-            histogram_edges_not_equal = False
-            all_array_values_equal = np.array_equal(
-                other_histogram["bin_edges"], self_histogram["bin_edges"]
-            )
-            if not all_array_values_equal:
-                histogram_edges_not_equal = True
-
-            if histogram_edges_not_equal:
+            if not np.array_equal(other_histogram["bin_edges"], psi_bin_edges):
                 histogram, hist_loss = self._regenerate_histogram(
                     entity_count_per_bin=other_histogram["bin_counts"],
                     bin_edges=other_histogram["bin_edges"],
-- 
2.43.0


From 375687a669738a26213d14044cc9dd882057bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:27 +0000
Subject: [PATCH 009/105] fix: updating the correlation with a batch of nulls
 no longer divides by zero

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6e51265..d193c0d 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2331,6 +2331,10 @@ class StructuredProfiler(BaseProfiler):
         data = data.fillna(value=means)
         data = data[clean_column_ids]
 
+        # a batch with nothing but nulls does not affect the correlation
+        if clean_column_ids and data.empty:
+            return None
+
         # Update the counts/std if needed (i.e. if null rows or exist)
         if (len(data) != batch_properties["count"]).any():
             adjusted_stds = np.sqrt(
-- 
2.43.0


From adc6fa58b763e0d4a5ea81ab84e05165195873cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 010/105] fix: null replication sums of integer batches can
 take a float running sum

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d193c0d..c7295ba 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2663,7 +2663,7 @@ class StructuredProfiler(BaseProfiler):
 
                 # np.array for element wise addition
                 old_sum_null = np.asarray(old_sum_null)
-                sum_null += old_sum_null
+                sum_null = sum_null + old_sum_null
 
             sum_not_null = np.delete(total_row_sum, col_id) - sum_null
 
-- 
2.43.0


From 1dfd5bf5ce11354cfc41874bfcce7927483a8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 011/105] fix: merge null replication metrics of profiles with
 datetime columns

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c7295ba..ebb8f49 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2709,7 +2709,7 @@ class StructuredProfiler(BaseProfiler):
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in self._profile
             ]
@@ -2717,7 +2717,7 @@ class StructuredProfiler(BaseProfiler):
         other_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
-                if get_data_type(profile)
+                if get_data_type(profile) not in [None, "datetime"]
                 else np.nan
                 for profile in other._profile
             ]
-- 
2.43.0


From d0d839b1e34129f9ca6f5fc21c44d996d439a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 012/105] fix: keep the histogram when merging with a column
 that has none

---
 dataprofiler/profilers/numerical_column_stats.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 0c90fec..0a54ac1 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -349,12 +349,15 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         if "histogram_and_quantiles" in self.__calculations.keys():
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
-            elif not other2._has_histogram:
-                self.histogram_methods = other1.histogram_methods
-                self.quantiles = other1.quantiles
             else:
-                self.histogram_methods = other2.histogram_methods
-                self.quantiles = other2.quantiles
+                # only one of them has data, hence its histogram is the merged one
+                other = other2 if other2._has_histogram else other1
+                self.histogram_bin_method_names = other.histogram_bin_method_names
+                self.histogram_selection = other.histogram_selection
+                self.user_set_histogram_bin = other.user_set_histogram_bin
+                self.histogram_methods = copy.deepcopy(other.histogram_methods)
+                self._stored_histogram = copy.deepcopy(other._stored_histogram)
+                self.quantiles = copy.deepcopy(other.quantiles)
 
         # Merge max k mode count
         self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
-- 
2.43.0


From a07646365433117aa2afcd5a37b1852c7743d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 013/105] fix: keep the number of quantiles set by the user
 when merging columns

---
 dataprofiler/profilers/numerical_column_stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 0a54ac1..1d01cc3 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -347,6 +347,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             self.num_negatives = other1.num_negatives + other2.num_negatives
 
         if "histogram_and_quantiles" in self.__calculations.keys():
+            self._num_quantiles = max(other1._num_quantiles, other2._num_quantiles)
             if other1._has_histogram and other2._has_histogram:
                 self._add_helper_merge_profile_histograms(other1, other2)
             else:
-- 
2.43.0


From 19c142ac1f43522b868b352dc30deafa4385ed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:39 +0000
Subject: [PATCH 014/105] fix: updating a merged column no longer corrupts its
 histogram

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 1d01cc3..e13814c 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1242,7 +1242,8 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
 
     def _histogram_to_array(self) -> np.ndarray:
         # Extend histogram to array format
-        bin_counts = self._stored_histogram["histogram"]["bin_counts"]
+        # merged histograms hold their counts as floats
+        bin_counts = self._stored_histogram["histogram"]["bin_counts"].astype(int)
         bin_edges = self._stored_histogram["histogram"]["bin_edges"]
         is_bin_non_zero = bin_counts[:-1] > 0
         bin_left_edge = bin_edges[:-2][is_bin_non_zero]
-- 
2.43.0


From cc2118ffbe6f30ba0b0aa45e2eb2db8bfa6db230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:33 +0000
Subject: [PATCH 015/105] fix: merging profiles which use HyperLogLog leaves
 the first one as it was

---
 dataprofiler/profilers/profile_builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index ebb8f49..3d6386e 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1805,8 +1805,10 @@ class StructuredProfiler(BaseProfiler):
                 elif isinstance(self.hashed_row_object, HyperLogLog) and isinstance(
                     other.hashed_row_object, HyperLogLog
                 ):
-                    self.hashed_row_object.merge(other.hashed_row_object),
-                    merged_profile.hashed_row_object = self.hashed_row_object
+                    merged_profile.hashed_row_object = copy.deepcopy(
+                        self.hashed_row_object
+                    )
+                    merged_profile.hashed_row_object.merge(other.hashed_row_object)
 
         self_to_other_idx = self._get_and_validate_schema_mapping(
             self._col_name_to_idx, other._col_name_to_idx
-- 
2.43.0


From d15bca9a753c0d1183c57e126bd2363640304b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:32 +0000
Subject: [PATCH 016/105] fix: a merged count-min-sketch column can be updated
 and merged again

---
 dataprofiler/profilers/categorical_column_profile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 5859617..f4f7ffa 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -116,6 +116,8 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             cms_max_num_heavy_hitters: int = min(
                 self._cms_max_num_heavy_hitters, other._cms_max_num_heavy_hitters
             )
+            merged_profile.cms_num_hashes = self.cms_num_hashes
+            merged_profile.cms_num_buckets = self.cms_num_buckets
 
             (
                 merged_profile.cms,
@@ -564,12 +566,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             cms3.merge(cms1)
             cms3.merge(cms2)
         except ValueError as err:
-            raise err(
+            raise ValueError(
                 """Incompatible sketch configuration. When merging two sketches,
                 they must have the same number of buckets and hashes,
                 which are defined by cms_confidence and cms_relative_error options,
                 respectively."""
-            )
+            ) from err
 
         # re-collecting the estimates of non intersecting categories before
         # re-applying heavy-hitters to the aggregate profile.
-- 
2.43.0


From 8d4350fa86be1f564190f2b0128462d7a210bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:32 +0000
Subject: [PATCH 017/105] fix: keep top_k_categories when merging categorical
 columns

---
 dataprofiler/profilers/categorical_column_profile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index f4f7ffa..9dacd82 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -109,6 +109,12 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
             merged_profile.__calculations, self.__calculations, other.__calculations
         )
 
+        # Report all categories unless both profiles limit them
+        if self._top_k_categories is not None and other._top_k_categories is not None:
+            merged_profile._top_k_categories = max(
+                self._top_k_categories, other._top_k_categories
+            )
+
         if self.cms and other.cms:
 
             assert isinstance(self._cms_max_num_heavy_hitters, int)
-- 
2.43.0


From 128dab334bbd65caf75022cf64fa1923cfe7b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 018/105] fix: apply the regex flags given for null values

---
 dataprofiler/profilers/profile_builder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 3d6386e..0586ef6 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -618,8 +618,10 @@ class StructuredColProfiler:
         na_columns: dict = dict()
         true_sample_set = set()
         total_sample_size = 0
-        query = "|".join(null_values.keys())
-        regex = f"^(?:{(query)})$"
+        # group the null values by their regex flags
+        queries: dict = dict()
+        for null_value, flags in null_values.items():
+            queries.setdefault(int(flags), list()).append(null_value)
         for chunked_sample_ids in sample_ind_generator:
             total_sample_size += len(chunked_sample_ids)
 
@@ -627,7 +629,10 @@ class StructuredColProfiler:
             df_subset = df_series.iloc[chunked_sample_ids]
 
             # Query should search entire cell for all elements at once
-            matches = df_subset.str.match(regex, flags=re.IGNORECASE)
+            matches = pd.Series(False, index=df_subset.index)
+            for flags, query in queries.items():
+                regex = f"^(?:{'|'.join(query)})$"
+                matches |= df_subset.str.match(regex, flags=flags)
 
             # Split series into None samples and true samples
             true_sample_set.update(df_subset[~matches].index)
-- 
2.43.0


From d15d4a194fe5072f30662113f22fa28a2cbc3234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 019/105] fix: look up column null values by the position of
 the column in the profile

---
 dataprofiler/profilers/profile_builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0586ef6..537f95c 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2928,7 +2928,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values: dict = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     multi_process_dict[col_idx] = pool.apply_async(
@@ -2974,7 +2974,7 @@ class StructuredProfiler(BaseProfiler):
                     null_values = self._profile[prof_idx]._null_values.copy()
                     if self.options.column_null_values:
                         null_values.update(
-                            self.options.column_null_values.get(col_idx, {})
+                            self.options.column_null_values.get(prof_idx, {})
                         )
 
                     clean_sampled_dict[prof_idx], base_stats = self._profile[
@@ -2997,7 +2997,7 @@ class StructuredProfiler(BaseProfiler):
 
                 null_values = self._profile[prof_idx]._null_values.copy()
                 if self.options.column_null_values:
-                    null_values.update(self.options.column_null_values.get(col_idx, {}))
+                    null_values.update(self.options.column_null_values.get(prof_idx, {}))
 
                 clean_sampled_dict[prof_idx], base_stats = self._profile[
                     prof_idx
-- 
2.43.0


From 91b4082bdb1f1d14b44519fb8a1a184035f8aeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:41 +0000
Subject: [PATCH 020/105] fix: null_ratio covers all batches and both operands
 of a merge

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 537f95c..1f31313 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -432,7 +432,7 @@ class StructuredColProfiler:
         self._last_batch_size = base_stats["sample_size"]
         self.sample = base_stats["sample"]
         self.null_count += base_stats["null_count"]
-        self.null_ratio = base_stats["null_count"] / base_stats["sample_size"]
+        self.null_ratio = self.null_count / self.sample_size
         self.null_types = profiler_utils._combine_unique_sets(
             self.null_types, list(base_stats["null_types"].keys())
         )
-- 
2.43.0


From 2e4034143fd7cdde199ee95e0709b336bc305de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:51 +0000
Subject: [PATCH 021/105] fix: forget the index shift of a batch when the next
 one needs none

---
 dataprofiler/profilers/profile_builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 1f31313..fcbd97d 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -442,6 +442,7 @@ class StructuredColProfiler:
         base_nti = base_stats["null_types"]
 
         # Check if indices overlap, if they do, adjust attributes accordingly
+        self._index_shift = None
         if profiler_utils.overlap(self._min_id, self._max_id, base_min, base_max):
             warnings.warn(
                 f"Overlapping indices detected. To resolve, indices "
-- 
2.43.0


From 55b98096a36d747c4bb3a2541427487459705f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:18 +0000
Subject: [PATCH 022/105] fix: profile data whose index has duplicate labels
 correctly

---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index fcbd97d..74943ca 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2820,6 +2820,10 @@ class StructuredProfiler(BaseProfiler):
         elif isinstance(data, list):
             data = pd.DataFrame(data, dtype=object)
 
+        # Rows are identified by their index, e.g. to find the null ones
+        if not data.index.is_unique:
+            data = data.reset_index(drop=True)
+
         # Calculate schema of incoming data
         mapping_given = defaultdict(list)
         for col_idx in range(len(data.columns)):
-- 
2.43.0


From 124498268be3dcf3dcf3bd635e9149e004598ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:34 +0000
Subject: [PATCH 023/105] fix: count unique rows with HyperLogLog when columns
 share a name

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 74943ca..49c3465 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2244,6 +2244,9 @@ class StructuredProfiler(BaseProfiler):
                     )
             elif isinstance(self.hashed_row_object, HyperLogLog):
                 batch_size = 2048
+                if not data.columns.is_unique:
+                    # records need unique names
+                    data = data.set_axis(range(data.shape[1]), axis=1)
 
                 for batch_ind in range(len(data) // batch_size + 1):
                     start_ind = batch_ind * batch_size
-- 
2.43.0


From 7ff8a24ca1b427b9f92d2a50c82fe2d217a02ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:34 +0000
Subject: [PATCH 024/105] fix: recognize duplicate rows in batches with
 reordered columns

---
 dataprofiler/profilers/profile_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 49c3465..970f726 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3051,7 +3051,11 @@ class StructuredProfiler(BaseProfiler):
             samples_for_row_stats = None
             if min_true_samples not in [None, 0]:
                 samples_for_row_stats = np.concatenate(sample_ids)
-            self._update_row_statistics(data, samples_for_row_stats)
+            # Hash the rows in the column order of the profile
+            ordered_data = data.iloc[
+                :, sorted(col_idx_to_prof_idx, key=lambda idx: col_idx_to_prof_idx[idx])
+            ]
+            self._update_row_statistics(ordered_data, samples_for_row_stats)
 
         # Calculate metrics specific to capitalone/synthetic-data
         if self.options.null_replication_metrics.is_enabled:
-- 
2.43.0


From 88518a6e867f950bdf2f86815dab5a7ae87bfb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:16 +0000
Subject: [PATCH 025/105] fix: report a median of 0 between two bins

---
 dataprofiler/profilers/numerical_column_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index e13814c..0ae34e3 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1587,7 +1587,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         quantiles: np.ndarray = np.interp(
             percentiles / 100, cumsum_bin_counts, bin_edges
         )
-        if median_value:
+        if median_value is not None:
             quantiles[percentiles == 50] = median_value
         return cast(List[float], quantiles.tolist())
 
-- 
2.43.0


From 98cf56ae2c9691444cabca6d0ad52070e279279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:16 +0000
Subject: [PATCH 026/105] fix: report quantiles when fewer than four groups can
 be formed

---
 dataprofiler/profilers/helpers/report_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 96ec553..21d5f86 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -21,7 +21,7 @@ def calculate_quantiles(
     """
     len_quant = len(quantiles)
     if not (num_quantile_groups and 0 < num_quantile_groups <= (len_quant + 1)):
-        num_quantile_groups = 4
+        num_quantile_groups = min(4, len_quant + 1)
     quant_multiplier = (len_quant + 1) / num_quantile_groups
     # quantile is one less than group
     # Goes from zero (inclusive) to number of groups (exclusive)
-- 
2.43.0


From 2c295166cdf6a2d37dbf901e767cc504376220b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:51 +0000
Subject: [PATCH 027/105] fix: recognize dates in May in formats which have no
 full month variant

---
 dataprofiler/profilers/datetime_column_profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/datetime_column_profile.py b/dataprofiler/profilers/datetime_column_profile.py
index af99283..9f4c509 100644
--- a/dataprofiler/profilers/datetime_column_profile.py
+++ b/dataprofiler/profilers/datetime_column_profile.py
@@ -277,7 +277,8 @@ class DateTimeColumn(BaseColumnPrimitiveTypeProfiler["DateTimeColumn"]):
 
             df_dates = valid_dates[~valid_dates.isnull()]
 
-            if "%b" in date_format and not df_dates.empty:
+            has_full_month_format = date_format.replace("%b", "%B") in cls._date_formats
+            if "%b" in date_format and has_full_month_format and not df_dates.empty:
                 may_month = 5  # May can be %b or %B we want to force, so check
                 all_may = df_dates.apply(lambda x: x.month == may_month).all()
                 if all_may:
-- 
2.43.0


From 5659e6d75097be9bd6b9284aa8bb4ff49714cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:51 +0000
Subject: [PATCH 028/105] fix: sample at least one value for the precision of a
 float column

---
 dataprofiler/profilers/float_column_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 6cfd47f..76418f6 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -301,7 +301,7 @@ class FloatColumn(
         # If user sets sample ratio, utilize their request
         sample_size = min(len_df, max(20000, int(len_df * 0.05)))
         if sample_ratio is not None and sample_ratio > 0:
-            sample_size = int(len_df * sample_ratio)
+            sample_size = max(1, int(len_df * sample_ratio))
 
         # length of sampled cells after all punctuation removed
         len_per_float = (
-- 
2.43.0


From 2e0d162e021f42f58da6fbd6b00e360e23355f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 029/105] fix: merge the correlation of profiles with
 non-numeric or reordered columns

---
 dataprofiler/profilers/profile_builder.py | 47 ++++++++---------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 970f726..83e8fc0 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2401,6 +2401,13 @@ class StructuredProfiler(BaseProfiler):
         """
         corr_mat1 = self.correlation_matrix
         corr_mat2 = other.correlation_matrix
+        # order of the columns of self in the other profile
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_ids = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+        if corr_mat2 is not None and other_ids:
+            corr_mat2 = corr_mat2[np.ix_(other_ids, other_ids)]
         n1 = self.total_samples - self.row_is_null_count
         n2 = other.total_samples - other.row_is_null_count
         if n1 == 0:
@@ -2420,37 +2427,17 @@ class StructuredProfiler(BaseProfiler):
         if (col_ids1 != col_ids2).any():
             return None
 
-        mean1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
-        std1 = np.array(
-            [
-                self._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids1
-            ]
-        )
-
-        mean2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["mean"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
-        std2 = np.array(
-            [
-                other._profile[idx].profile["statistics"]["stddev"]
-                for idx in range(len(self._profile))
-                if idx in col_ids2
-            ]
-        )
+        properties1 = self._get_correlation_dependent_properties()
+        properties2 = other._get_correlation_dependent_properties()
         return self._merge_correlation_helper(
-            corr_mat1, mean1, std1, n1, corr_mat2, mean2, std2, n2
+            corr_mat1,
+            properties1["mean"],
+            properties1["std"],
+            n1,
+            corr_mat2,
+            properties2["mean"][other_ids],
+            properties2["std"][other_ids],
+            n2,
         )
 
     def _get_correlation_dependent_properties(self, batch: dict = None) -> dict:
-- 
2.43.0


From 5a0f0f9211533455ed85715cd07b9678b45718f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 030/105] fix: merge null replication metrics of profiles with
 reordered columns

---
 dataprofiler/profilers/profile_builder.py | 29 ++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 83e8fc0..c94eb55 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2704,6 +2704,12 @@ class StructuredProfiler(BaseProfiler):
             "data_type_profile"
         ]._profiles[get_data_type(profile)]
 
+        # order of the columns of self in the other profile
+        self_to_other_idx = self._get_and_validate_schema_mapping(
+            self._col_name_to_idx, other._col_name_to_idx
+        )
+        other_ids = [self_to_other_idx[idx] for idx in range(len(self._profile))]
+
         self_row_sum = np.asarray(
             [
                 get_data_type_profiler(profile).sum
@@ -2714,17 +2720,18 @@ class StructuredProfiler(BaseProfiler):
         )
         other_row_sum = np.asarray(
             [
-                get_data_type_profiler(profile).sum
-                if get_data_type(profile) not in [None, "datetime"]
+                get_data_type_profiler(other._profile[idx]).sum
+                if get_data_type(other._profile[idx]) not in [None, "datetime"]
                 else np.nan
-                for profile in other._profile
+                for idx in other_ids
             ]
         )
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
             self_profile = self._profile[col_id]
-            other_profile = other._profile[col_id]
+            other_id = other_ids[col_id]
+            other_profile = other._profile[other_id]
 
             self_null_count = getattr(self_profile, "null_count")
             other_null_count = getattr(other_profile, "null_count")
@@ -2746,8 +2753,18 @@ class StructuredProfiler(BaseProfiler):
                 else None
             )
             other_sum_null = (
-                other._null_replication_metrics[col_id]["class_sum"][1]
-                if col_id in other._null_replication_metrics
+                np.delete(
+                    np.insert(
+                        np.asarray(
+                            other._null_replication_metrics[other_id]["class_sum"][1],
+                            dtype=float,
+                        ),
+                        other_id,
+                        np.nan,
+                    )[other_ids],
+                    col_id,
+                )
+                if other_id in other._null_replication_metrics
                 else None
             )
             # Initialize zeros array of size (number of columns - 1)
-- 
2.43.0


From 32e456e2ff8e7b184e36cbc32027e12588e1bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:35 +0000
Subject: [PATCH 031/105] fix: update null replication metrics with batches of
 reordered columns

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index c94eb55..5cda979 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2602,6 +2602,8 @@ class StructuredProfiler(BaseProfiler):
         :type clean_samples: dict
         """
         data = pd.DataFrame(clean_samples).apply(pd.to_numeric, errors="coerce")
+        # columns of the batch may come in another order than those of the profile
+        data = data[sorted(data.columns)]
 
         get_data_type = lambda profile: profile.profiles[  # NOQA: E731
             "data_type_profile"
-- 
2.43.0


From 7c5cb355983b8fbc467422f4aea157c4e7508ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:02 +0000
Subject: [PATCH 032/105] fix: report a statistic that is NaN in both profiles
 as unchanged

---
 dataprofiler/profilers/profiler_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index e38e1b0..79b9233 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -443,6 +443,8 @@ def find_diff_of_numbers(stat1, stat2):
         pass
     elif stat1 is None or stat2 is None:
         return [stat1, stat2]
+    elif stat1 != stat1 and stat2 != stat2:  # both are NaN
+        pass
     elif stat1 != stat2:
         return stat1 - stat2
     return "unchanged"
-- 
2.43.0


From b1ecae4fd26e27f52e7bc02545916709e7e7e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:35 +0000
Subject: [PATCH 033/105] fix: leave enabled statistics in a report that
 removes the disabled ones

---
 .../profilers/float_column_profile.py         |  9 ++--
 dataprofiler/profilers/int_column_profile.py  |  5 +-
 .../profilers/numerical_column_stats.py       | 49 ++++++++++++++-----
 dataprofiler/profilers/text_column_profile.py |  9 ++--
 .../profilers/unstructured_text_profile.py    | 15 +++---
 5 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/dataprofiler/profilers/float_column_profile.py b/dataprofiler/profilers/float_column_profile.py
index 76418f6..4c8f1c5 100644
--- a/dataprofiler/profilers/float_column_profile.py
+++ b/dataprofiler/profilers/float_column_profile.py
@@ -150,12 +150,9 @@ class FloatColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "precision":
-                    if "precision" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._pop_disabled_numeric_stats(profile)
+            if "precision" not in calcs_dict_keys:
+                profile.pop("precision")
 
         return profile
 
diff --git a/dataprofiler/profilers/int_column_profile.py b/dataprofiler/profilers/int_column_profile.py
index 014465c..7f9a370 100644
--- a/dataprofiler/profilers/int_column_profile.py
+++ b/dataprofiler/profilers/int_column_profile.py
@@ -70,7 +70,10 @@ class IntColumn(
             options should be excluded in the report.
         :type remove_disabled_flag: boolean
         """
-        return self.profile
+        profile = self.profile
+        if remove_disabled_flag:
+            self._pop_disabled_numeric_stats(profile)
+        return profile
 
     @classmethod
     def load_from_dict(cls, data, config: dict | None = None):
diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 0ae34e3..894c4da 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -414,25 +414,48 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
         :return: Profile object pop'd based on values missing from __calculations
         :rtype: Profile
         """
-        calcs_dict_keys = self._NumericStatsMixin__calculations.keys()
         profile = self.profile()
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key in ["mode", "quantiles", "histogram"]:
-                    if "histogram_and_quantiles" in calcs_dict_keys:
-                        continue
-                elif profile_key == "stddev" and "variance" in calcs_dict_keys:
-                    continue
-                elif profile_key in calcs_dict_keys:
-                    continue
-                elif profile_key == "times":
-                    continue
-                profile.pop(profile_key)
+            self._pop_disabled_numeric_stats(profile)
 
         return profile
 
+    def _pop_disabled_numeric_stats(self, profile: dict) -> None:
+        """
+        Remove the numeric statistics which are disabled from a profile, in place.
+
+        :param profile: profile of the column
+        :type profile: dict
+        """
+        calcs_dict_keys = self._NumericStatsMixin__calculations.keys()
+        has_histogram = "histogram_and_quantiles" in calcs_dict_keys
+        is_enabled = {
+            key: key in calcs_dict_keys
+            for key in [
+                "min",
+                "max",
+                "sum",
+                "variance",
+                "skewness",
+                "kurtosis",
+                "num_zeros",
+                "num_negatives",
+            ]
+        }
+        is_enabled.update(
+            mean="sum" in calcs_dict_keys,
+            stddev="variance" in calcs_dict_keys,
+            histogram=has_histogram,
+            quantiles=has_histogram,
+            mode=has_histogram and self._mode_is_enabled,
+            median=has_histogram and self._median_is_enabled,
+            median_abs_deviation=has_histogram and self._median_abs_dev_is_enabled,
+        )
+        for profile_key in list(profile.keys()):
+            if not is_enabled.get(profile_key, True):
+                profile.pop(profile_key)
+
     def _reformat_numeric_stats_types_on_serialized_profiles(self):
         """Assistance function in the deserialization of profiler objects.
 
diff --git a/dataprofiler/profilers/text_column_profile.py b/dataprofiler/profilers/text_column_profile.py
index 5969a41..1a16832 100644
--- a/dataprofiler/profilers/text_column_profile.py
+++ b/dataprofiler/profilers/text_column_profile.py
@@ -76,12 +76,9 @@ class TextColumn(
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            self._pop_disabled_numeric_stats(profile)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
 
         return profile
 
diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 96b7d06..6938bdf 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -635,15 +635,12 @@ class TextProfiler:
         profile = self.profile
 
         if remove_disabled_flag:
-            profile_keys = list(profile.keys())
-            for profile_key in profile_keys:
-                if profile_key == "vocab":
-                    if "vocab" in calcs_dict_keys:
-                        continue
-                if profile_key == "words":
-                    if "words" in calcs_dict_keys:
-                        continue
-                profile.pop(profile_key)
+            if "vocab" not in calcs_dict_keys:
+                profile.pop("vocab")
+                profile.pop("vocab_count")
+            if "words" not in calcs_dict_keys:
+                profile.pop("words")
+                profile.pop("word_count")
 
         return profile
 
-- 
2.43.0


From 43768af98328a14f47a97735f979ec29bacf4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:35 +0000
Subject: [PATCH 034/105] fix: report invalid row statistics options when
 validating

---
 dataprofiler/profilers/profiler_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 038acf8..0120b7b 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1204,7 +1204,7 @@ class RowStatisticsOptions(BooleanOption["RowStatisticsOptions"]):
 
         errors += self.unique_count._validate_helper(variable_path + ".unique_counts")
         errors += self.null_count._validate_helper(variable_path + ".null_count")
-        return super()._validate_helper(variable_path)
+        return errors
 
 
 class DataLabelerOptions(BaseInspectorOptions["DataLabelerOptions"]):
-- 
2.43.0


From 6408364915663abb19916b58a5ae77c5357649b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:03 +0000
Subject: [PATCH 035/105] fix: update a profile of one row whose variance is
 disabled

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 5cda979..3988d80 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2472,7 +2472,7 @@ class StructuredProfiler(BaseProfiler):
                     dependent_properties["mean"][id] = data_type_profiler.mean
                     # Subtract null row count as those aren't included in corr. calc
                     dependent_properties["std"][id] = np.sqrt(
-                        data_type_profiler._biased_variance
+                        np.float64(data_type_profiler._biased_variance)
                         * n
                         / (self.total_samples - self.row_is_null_count - 1)
                     )
-- 
2.43.0


From befa72fb6aa22411b8dba7d8fae06d5dabd89710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:03 +0000
Subject: [PATCH 036/105] fix: validate the vocab and words options of the text
 profiler

---
 dataprofiler/profilers/profiler_options.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 0120b7b..4ed5124 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1416,11 +1416,15 @@ class TextProfilerOptions(BaseInspectorOptions["TextProfilerOptions"]):
             errors.append(
                 "{}.vocab must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.vocab._validate_helper(variable_path + ".vocab")
 
         if not isinstance(self.words, BooleanOption):
             errors.append(
                 "{}.words must be a BooleanOption " "object.".format(variable_path)
             )
+        else:
+            errors += self.words._validate_helper(variable_path + ".words")
 
         return errors
 
-- 
2.43.0


From 75d129e7100549059f57a4ce2dae30942418328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:04 +0000
Subject: [PATCH 037/105] fix: print differences with lists of different
 lengths in the pretty format

---
 dataprofiler/profilers/helpers/report_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 21d5f86..fb21e4e 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -237,7 +237,11 @@ def _prepare_report(
             if output_format == "pretty":
 
                 if isinstance(value, (set, list)):
-                    value = np.array(value)
+                    try:
+                        value = np.array(value)
+                    except ValueError:
+                        # lists of different lengths, i.e. [[1, 2], [], [3]]
+                        value = np.array(value, dtype=object)
 
                 str_value = np.array2string(value, separator=", ")
 
-- 
2.43.0


From c206b00da7edbf8c6d6695421ee208589e77bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:48 +0000
Subject: [PATCH 038/105] fix: accept wildcards for both top levels in
 omit_keys

---
 dataprofiler/profilers/helpers/report_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index fb21e4e..382a584 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -171,6 +171,7 @@ def _prepare_report(
 
                     # Omit this column
                     if omit_key in {
+                        "*.*",
                         f"*.{col_name}",
                         "data_stats.*",
                         f"data_stats.{col_name}",
-- 
2.43.0


From 6f5ea5cd909f18d1dd251e014835dc29a334a2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 039/105] fix: keep the stored histogram apart from the
 reported one

---
 dataprofiler/profilers/numerical_column_stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index 894c4da..fd55955 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -1541,8 +1541,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 self.histogram_methods[histogram_method]["total_loss"],
             )
         elif len(bin_counts) == suggested_bin_count:
+            # a copy, as updates reset the histograms of the methods in place
             return (
-                self._stored_histogram["histogram"],
+                self._stored_histogram["histogram"].copy(),
                 self._stored_histogram["total_loss"],
             )
 
-- 
2.43.0


From fcf7b6ce0e1a17afb0c7583b462d9dcbcd082bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 040/105] fix: update the correlation of a merged profile with
 a batch without values

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 3988d80..ec6ec29 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2478,7 +2478,8 @@ class StructuredProfiler(BaseProfiler):
                     )
                     dependent_properties["count"][id] = n
                 # Finding the properties of the batch data if given
-                elif id in batch.keys():
+                # (there is no history of a batch without values)
+                elif id in batch.keys() and len(batch[id]):
                     history = data_type_profiler._batch_history[-1]
                     n = history["match_count"]
                     # Since we impute values, we want the total rows (including nulls)
-- 
2.43.0


From 6c6d26db5c4884e56da4372ad9dcd0cc4c826169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 041/105] fix: save profiles with integer column names as JSON

---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index ec6ec29..0ce2f4d 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2841,6 +2841,8 @@ class StructuredProfiler(BaseProfiler):
             # Pandas columns are int by default, but need to fuzzy match strs
             if isinstance(col, str):
                 col = col.lower()
+            elif isinstance(col, np.integer):
+                col = int(col)
             mapping_given[col].append(col_idx)
 
         # Validate schema compatibility and index mapping from data to _profile
-- 
2.43.0


From 4ae08477a5fd82f2f6b5064c2fa114cfc0d048a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 042/105] fix: keep column names like "0" as strings when
 loading a JSON profile

---
 dataprofiler/profilers/profile_builder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 0ce2f4d..ffd07a3 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2136,12 +2136,13 @@ class StructuredProfiler(BaseProfiler):
             data["chi2_matrix"] = np.array(data["chi2_matrix"])
         if data["correlation_matrix"] is not None:
             data["correlation_matrix"] = np.array(data["correlation_matrix"])
-        try:
-            data["_col_name_to_idx"] = defaultdict(
-                list, {int(k): v for k, v in data["_col_name_to_idx"].items()}
-            )
-        except Exception:
-            data["_col_name_to_idx"] = defaultdict(list, data["_col_name_to_idx"])
+        # JSON turns every key into a string, the names of the columns tell which
+        # ones were not
+        col_name_to_idx: dict = defaultdict(list)
+        for key, indices in data["_col_name_to_idx"].items():
+            name = data["_profile"][indices[0]]["data"]["name"]
+            col_name_to_idx[key if isinstance(name, str) else name] = indices
+        data["_col_name_to_idx"] = col_name_to_idx
 
         data["hashed_row_object"] = {
             int(k): v for k, v in data["hashed_row_object"].items()
-- 
2.43.0


From f5209f4846e9fd6b62a07a7f73e626ad67959f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 043/105] fix: pickle the correlation, null replication metrics
 and sampling ratio of a profile

---
 dataprofiler/profilers/profile_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index ffd07a3..cdd6549 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3092,8 +3092,11 @@ class StructuredProfiler(BaseProfiler):
                 "hashed_row_object": self.hashed_row_object,
                 "_samples_per_update": self._samples_per_update,
                 "_min_true_samples": self._min_true_samples,
+                "_sampling_ratio": self._sampling_ratio,
                 "options": self.options,
+                "correlation_matrix": self.correlation_matrix,
                 "chi2_matrix": self.chi2_matrix,
+                "_null_replication_metrics": self._null_replication_metrics,
                 "_profile": self.profile,
                 "_col_name_to_idx": self._col_name_to_idx,
                 "times": self.times,
-- 
2.43.0


From d915e818acb1557c728a581603fab5d0fedfd741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:29 +0000
Subject: [PATCH 044/105] fix: load null values with regex flags and column
 null values from JSON

---
 dataprofiler/profilers/profiler_options.py | 27 ++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 4ed5124..69539b3 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1626,6 +1626,33 @@ class StructuredOptions(BaseOption["StructuredOptions"]):
 
         return errors
 
+    @classmethod
+    def load_from_dict(cls, data, config: dict | None = None) -> StructuredOptions:
+        """
+        Parse attribute from json dictionary into self.
+
+        :param data: dictionary with attributes and values.
+        :type data: dict[string, Any]
+        :param config: config to override loading options params from dictionary
+        :type config: Dict | None
+
+        :return: Options with attributes populated.
+        :rtype: StructuredOptions
+        """
+        options = super().load_from_dict(data, config)
+
+        def load_flags(null_values: dict) -> dict:
+            return {k: (re.RegexFlag(v) if v != 0 else 0) for k, v in null_values.items()}
+
+        # JSON keeps neither integer keys nor regex flags
+        if options.null_values is not None:
+            options.null_values = load_flags(options.null_values)
+        if options.column_null_values is not None:
+            options.column_null_values = {
+                int(k): load_flags(v) for k, v in options.column_null_values.items()
+            }
+        return options
+
 
 class UnstructuredOptions(BaseOption["UnstructuredOptions"]):
     """For configuring options for unstructured profiler."""
-- 
2.43.0


From 362a14ae4da0eed44efb8836640054e37236a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:03 +0000
Subject: [PATCH 045/105] fix: load the null replication metrics of a JSON
 profile by column position

---
 dataprofiler/profilers/profile_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index cdd6549..43793bf 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2148,6 +2148,11 @@ class StructuredProfiler(BaseProfiler):
             int(k): v for k, v in data["hashed_row_object"].items()
         }
 
+        if data.get("_null_replication_metrics") is not None:
+            data["_null_replication_metrics"] = {
+                int(k): v for k, v in data["_null_replication_metrics"].items()
+            }
+
         structured_profiler = super().load_from_dict(data, config)
 
         return structured_profiler
-- 
2.43.0


From 4062a8bf88fbe31b8f3211cb928298aecb310aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:39 +0000
Subject: [PATCH 046/105] fix: diff columns of different types when categories
 are disabled

---
 dataprofiler/profilers/profile_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 43793bf..622825d 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -285,7 +285,8 @@ class StructuredColProfiler:
             }
         )
 
-        unordered_profile["statistics"].update(
+        # there are none if the types differ and categories are disabled
+        unordered_profile.setdefault("statistics", dict()).update(
             {
                 "sample_size": profiler_utils.find_diff_of_numbers(
                     self.sample_size, other_profile.sample_size
-- 
2.43.0


From b036a508236b4f16c5647e8ce4bcabb6b89b3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:39 +0000
Subject: [PATCH 047/105] fix: pickle profiles which use a count-min sketch

---
 .../profilers/categorical_column_profile.py         | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dataprofiler/profilers/categorical_column_profile.py b/dataprofiler/profilers/categorical_column_profile.py
index 9dacd82..2127a6c 100644
--- a/dataprofiler/profilers/categorical_column_profile.py
+++ b/dataprofiler/profilers/categorical_column_profile.py
@@ -86,6 +86,19 @@ class CategoricalColumn(BaseColumnProfiler["CategoricalColumn"]):
                     self.cms_num_hashes, self.cms_num_buckets
                 )
 
+    def __getstate__(self) -> dict:
+        """Return the state to pickle, sketches only support their own format."""
+        state = self.__dict__.copy()
+        if state["cms"] is not None:
+            state["cms"] = state["cms"].serialize()
+        return state
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore the pickled state."""
+        self.__dict__.update(state)
+        if isinstance(state.get("cms"), bytes):
+            self.cms = datasketches.count_min_sketch.deserialize(state["cms"])
+
     def __add__(self, other: CategoricalColumn) -> CategoricalColumn:
         """
         Merge the properties of two CategoricalColumn profiles.
-- 
2.43.0


From 7fd3904f02466b87ac6018286b685ec7868a6cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:28 +0000
Subject: [PATCH 048/105] fix: recognize duplicate rows of merged profiles with
 reordered columns

---
 dataprofiler/profilers/profile_builder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 622825d..945d980 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -3067,9 +3067,17 @@ class StructuredProfiler(BaseProfiler):
             samples_for_row_stats = None
             if min_true_samples not in [None, 0]:
                 samples_for_row_stats = np.concatenate(sample_ids)
-            # Hash the rows in the column order of the profile
+            # Hash the rows in an order of the columns which does not depend on the
+            # order they come in, as profiles with different ones can be merged
             ordered_data = data.iloc[
-                :, sorted(col_idx_to_prof_idx, key=lambda idx: col_idx_to_prof_idx[idx])
+                :,
+                sorted(
+                    col_idx_to_prof_idx,
+                    key=lambda idx: (
+                        str(data.columns[idx]).lower(),
+                        col_idx_to_prof_idx[idx],
+                    ),
+                ),
             ]
             self._update_row_statistics(ordered_data, samples_for_row_stats)
 
-- 
2.43.0


From d9edf529d9300b6966794c5a31f0a4f34dcf4acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:28 +0000
Subject: [PATCH 049/105] fix: update a profile with columns whose names differ
 in case

---
 dataprofiler/profilers/profile_builder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 945d980..b2e3648 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2857,6 +2857,16 @@ class StructuredProfiler(BaseProfiler):
             mapping_given, self._col_name_to_idx
         )
 
+        # Names match regardless of case, keep those of the profile
+        if self._profile:
+            data = data.set_axis(
+                [
+                    self._profile[col_idx_to_prof_idx[col_idx]].name
+                    for col_idx in range(len(data.columns))
+                ],
+                axis=1,
+            )
+
         try:
             from tqdm import tqdm
 
-- 
2.43.0


From 451a07e97a06625a2a6abaeda9d52314d8d5ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 050/105] fix: count the lines of text whose index labels
 repeat

---
 dataprofiler/profilers/profile_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index b2e3648..7a4b783 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1512,7 +1512,7 @@ class UnstructuredProfiler(BaseProfiler):
             matches = data_subset.str.match(regex, flags=re.IGNORECASE)
 
             # Split series into None samples and true samples
-            true_sample_list.update(data_subset[~matches].index)
+            true_sample_list.update(np.array(chunked_sample_ids)[~matches.values])
 
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
@@ -1528,7 +1528,7 @@ class UnstructuredProfiler(BaseProfiler):
         true_sample_list = sorted(true_sample_list)  # type: ignore[assignment]
 
         # Split out true values for later utilization
-        data = data.loc[true_sample_list]
+        data = data.iloc[true_sample_list]
         total_empty = total_sample_size - len(true_sample_list)
 
         base_stats.update(
-- 
2.43.0


From 2156fa888daa1bb3fdf4623b18cbce214cd69018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:40 +0000
Subject: [PATCH 051/105] fix: drop both sides' stop words when merging text
 profiles

---
 dataprofiler/profilers/unstructured_text_profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 6938bdf..38c51b7 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -503,7 +503,7 @@ class TextProfiler:
 
         # remove stop words
         merged_profile._stop_words = self._stop_words.union(other._stop_words)
-        if len(merged_profile._stop_words) != len(self._stop_words):
+        if self._stop_words != other._stop_words:
             for w in list(merged_profile.word_count.keys()):
                 if w.lower() in merged_profile._stop_words:
                     merged_profile.word_count.pop(w)
-- 
2.43.0


From 450e49db4faa4f8721330b4be36cf40ca017b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:41 +0000
Subject: [PATCH 052/105] fix: diff text profiles of different case sensitivity
 by lower case words

---
 .../profilers/unstructured_text_profile.py    | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/dataprofiler/profilers/unstructured_text_profile.py b/dataprofiler/profilers/unstructured_text_profile.py
index 38c51b7..7ea0ad3 100644
--- a/dataprofiler/profilers/unstructured_text_profile.py
+++ b/dataprofiler/profilers/unstructured_text_profile.py
@@ -596,18 +596,22 @@ class TextProfiler:
                 "and '{}'".format(cls.__name__, other_profile.__class__.__name__)
             )
 
-        self_words = list(self.word_count.keys())
-        self_word_count = dict(self.word_count.most_common(self._top_k_words))
-
-        other_words = list(other_profile.word_count.keys())
-        other_word_count = dict(other_profile.word_count.most_common(self._top_k_words))
-
-        if self._is_case_sensitive and not other_profile._is_case_sensitive:
-            self_words = [each_string.lower() for each_string in self_words]
-            self_word_count = {k.lower(): v for k, v in self_word_count.items()}
-        if not self._is_case_sensitive and other_profile._is_case_sensitive:
-            other_words = [each_string.lower() for each_string in other_words]
-            other_word_count = {k.lower(): v for k, v in other_word_count.items()}
+        self_counts = self.word_count
+        other_counts = other_profile.word_count
+
+        if self._is_case_sensitive != other_profile._is_case_sensitive:
+            # spellings which only differ in case count as one word
+            self_counts, other_counts = Counter(), Counter()
+            for word, count in self.word_count.items():
+                self_counts[word.lower()] += count
+            for word, count in other_profile.word_count.items():
+                other_counts[word.lower()] += count
+
+        self_words = list(self_counts.keys())
+        self_word_count = dict(self_counts.most_common(self._top_k_words))
+
+        other_words = list(other_counts.keys())
+        other_word_count = dict(other_counts.most_common(self._top_k_words))
 
         diff: dict = {}
         diff["vocab"] = profiler_utils.find_diff_of_lists_and_sets(
-- 
2.43.0


From 76b498672eb6daff08f21113c821a1341d03e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:41 +0000
Subject: [PATCH 053/105] fix: report and merge unstructured profiles which
 have no data

---
 dataprofiler/profilers/profile_builder.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 7a4b783..491ac62 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1318,7 +1318,13 @@ class UnstructuredProfiler(BaseProfiler):
         merged_profile.sample = random.sample(list(samples), min(len(samples), 5))
 
         # merge profiles
-        merged_profile._profile = self._profile + other._profile
+        if self._profile is None or other._profile is None:
+            # at most one of the two has seen data
+            merged_profile._profile = copy.deepcopy(
+                other._profile if self._profile is None else self._profile
+            )
+        else:
+            merged_profile._profile = self._profile + other._profile
 
         return merged_profile
 
@@ -1431,7 +1437,8 @@ class UnstructuredProfiler(BaseProfiler):
                 ("data_stats", OrderedDict()),
             ]
         )
-        report["data_stats"] = self._profile.report(remove_disabled_flag)
+        if self._profile is not None:
+            report["data_stats"] = self._profile.report(remove_disabled_flag)
         return _prepare_report(report, output_format, omit_keys)
 
     @classmethod
-- 
2.43.0


From 25611f6e0d90fbcd29a9f6013410d971db9daf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:43 +0000
Subject: [PATCH 054/105] fix: read csv values with the quote character of the
 file

---
 dataprofiler/data_readers/csv_data.py   | 2 ++
 dataprofiler/data_readers/data_utils.py | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 7e13d40..f9e3c98 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -562,6 +562,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             self.sample_nrows,
             self.selected_columns,
             read_in_string=True,
+            quotechar=self.quotechar,
         )
 
     def _load_data_from_file(self, input_file_path: str) -> pd.DataFrame:
@@ -610,6 +611,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
             self.selected_columns,
             read_in_string=True,
             encoding=self.file_encoding,
+            quotechar=self.quotechar,
         )
 
     def _get_data_as_records(self, data: pd.DataFrame) -> List[str]:
diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 611d25d..20e61f9 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -375,6 +375,7 @@ def read_csv_df(
     selected_columns: List[str] = [],
     read_in_string: bool = False,
     encoding: Optional[str] = "utf-8",
+    quotechar: Optional[str] = None,
 ) -> pd.DataFrame:
     """
     Read a CSV file in chunks and return dataframe in form of iterator.
@@ -390,6 +391,10 @@ def read_csv_df(
     :param read_in_string: if True, all the values in dataframe will be
         converted to string
     :type read_in_string: bool
+    :param encoding: encoding of the csv file
+    :type encoding: str
+    :param quotechar: character used to quote csv values, '"' if None.
+    :type quotechar: str
     :return: Iterator
     :rtype: pd.DataFrame
     """
@@ -406,6 +411,9 @@ def read_csv_df(
     if header is not None:
         args.update({"skip_blank_lines": False})
 
+    if quotechar:
+        args["quotechar"] = quotechar
+
     if read_in_string:
         args["dtype"] = str
 
-- 
2.43.0


From 5c1dbbef24547f3ccf26ad41d0cebe7bccae2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:43 +0000
Subject: [PATCH 055/105] fix: reload csv data with the options which are given

---
 dataprofiler/data_readers/csv_data.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index f9e3c98..3695459 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -763,10 +763,12 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         :type options: dict
         :return: None
         """
-        if not options:
-            options = dict()
-        options.update(
-            header=self.header, delimiter=self.delimiter, quotechar=self.quotechar
-        )
+        # the prior settings stand unless others are given
+        options = {
+            "header": self.header,
+            "delimiter": self.delimiter,
+            "quotechar": self.quotechar,
+            **(options or {}),
+        }
         super().reload(input_file_path, data, options)
         CSVData.__init__(self, self.input_file_path, data, options)
-- 
2.43.0


From 3726d530c6f4f5d267e360328421b91876aecccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:06 +0000
Subject: [PATCH 056/105] fix: read csv files with lines which hold nothing but
 their delimiter

---
 dataprofiler/data_readers/csv_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 3695459..1459d02 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -596,7 +596,7 @@ class CSVData(SpreadSheetDataMixin, BaseData):
                     if len(line) > 0:
                         if (
                             line.count(self._delimiter) == 1
-                            and line.strip()[-1] == self._delimiter
+                            and line.strip()[-1:] == self._delimiter
                         ):
                             count_delimiter_last += 1
                         num_lines_read += 1
-- 
2.43.0


From 94c494e7a7308fadaac642c116e3661dd53119bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 057/105] fix: sample whole records of a csv file

---
 dataprofiler/data_readers/data_utils.py | 49 ++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 20e61f9..d054f31 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -1,4 +1,5 @@
 """Contains functions for data readers."""
+import csv
 import json
 import logging
 import os
@@ -276,12 +277,12 @@ def read_json(
     return lines
 
 
-def reservoir(file: TextIOWrapper, sample_nrows: int) -> list:
+def reservoir(file: Union[TextIOWrapper, Iterator], sample_nrows: int) -> list:
     """
     Implement the mathematical logic of Reservoir sampling.
 
-    :param file: wrapper of the opened csv file
-    :type file: TextIOWrapper
+    :param file: wrapper of the opened csv file, or its records
+    :type file: Union[TextIOWrapper, Iterator]
     :param sample_nrows: number of rows to sample
     :type sample_nrows: int
 
@@ -343,6 +344,43 @@ def reservoir(file: TextIOWrapper, sample_nrows: int) -> list:
     return values
 
 
+def csv_records(
+    file: TextIOWrapper, delimiter: Optional[str], quotechar: Optional[str]
+) -> Generator[str, None, None]:
+    """
+    Split a csv file into its records, of which each may span several lines.
+
+    :param file: wrapper of the opened csv file
+    :type file: TextIOWrapper
+    :param delimiter: character used to separate csv values, "," if None
+    :type delimiter: str
+    :param quotechar: character used to quote csv values, '"' if None
+    :type quotechar: str
+    :return: text of one record after the other
+    :rtype: Generator
+    """
+    lines: List[str] = []
+
+    def read_lines():
+        for line in file:
+            lines.append(line)
+            yield line
+
+    if delimiter is not None and len(delimiter) != 1:
+        yield from file
+        return
+    try:
+        for _ in csv.reader(
+            read_lines(), delimiter=delimiter or ",", quotechar=quotechar or '"'
+        ):
+            yield "".join(lines)
+            lines.clear()
+    except csv.Error:
+        # not readable as records, hence the remainder is split by line
+        yield from lines
+        yield from file
+
+
 def rsample(file_path: TextIOWrapper, sample_nrows: int, args: dict) -> StringIO:
     """
     Implement Reservoir Sampling to sample n rows out of a total of M rows.
@@ -356,12 +394,13 @@ def rsample(file_path: TextIOWrapper, sample_nrows: int, args: dict) -> StringIO
     """
     header = args["header"]
     result = []
+    records = csv_records(file_path, args.get("delimiter"), args.get("quotechar"))
 
     if header is not None:
-        result = [[next(file_path) for i in range(header + 1)][-1]]
+        result = [[next(records) for i in range(header + 1)][-1]]
         args["header"] = 0
 
-    result += reservoir(file_path, sample_nrows)
+    result += reservoir(records, sample_nrows)
 
     fo = StringIO("".join([i if (i[-1] == "\n") else i + "\n" for i in result]))
     return fo
-- 
2.43.0


From 98a4dc42cb4a52a0a7581102e042bf6118cfc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 058/105] fix: read the json lines after a blank line

---
 dataprofiler/data_readers/data_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index d054f31..a10fdb1 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -202,7 +202,7 @@ def read_json_df(
         except StopIteration:
             raw_line = None
 
-        if not raw_line:
+        if raw_line is None:
             break
         try:
             obj = unicode_to_str(
@@ -258,7 +258,7 @@ def read_json(
         except StopIteration:
             raw_line = None
 
-        if not raw_line:
+        if raw_line is None:
             break
         try:
             obj = unicode_to_str(
-- 
2.43.0


From 616470ff61304bdf464c5b845a0416f235979a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 059/105] fix: select keys of a json payload which has metadata

---
 dataprofiler/data_readers/json_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index 93e5d7e..c1014af 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -224,9 +224,10 @@ class JSONData(SpreadSheetDataMixin, BaseData):
             # Coalesce the data together
             json_lines = self._coalesce_dicts(flattened_json)
 
+        # with a payload, the keys were selected from it and this is its metadata
         data, original_df_dtypes = data_utils.json_to_dataframe(
             json_lines=json_lines,
-            selected_columns=self.selected_keys,
+            selected_columns=self.selected_keys if payload_data is None else None,
             read_in_string=False,
         )
         self._original_df_dtypes = original_df_dtypes
-- 
2.43.0


From 747670d3f14a4fa86a8cb28e939a0e8de4c3be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 060/105] fix: flatten the nested objects of json lines

---
 dataprofiler/data_readers/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index a10fdb1..22ab4a7 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -150,7 +150,7 @@ def json_to_dataframe(
             "Only JSON which represents structured data is supported for this "
             "data type (i.e. list-dicts)."
         )
-    elif first_item_type == dict:
+    elif issubclass(first_item_type, dict):
         df = pd.json_normalize(json_lines)
     else:
         df = pd.DataFrame(json_lines)
-- 
2.43.0


From 7965d47a9f147df5c0ad5f9cadb4ddf3f57b8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 061/105] fix: split json text into lines at line ends only

---
 dataprofiler/data_readers/json_data.py    | 4 ++--
 dataprofiler/data_readers/parquet_data.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/data_readers/json_data.py b/dataprofiler/data_readers/json_data.py
index c1014af..8a33151 100644
--- a/dataprofiler/data_readers/json_data.py
+++ b/dataprofiler/data_readers/json_data.py
@@ -250,9 +250,9 @@ class JSONData(SpreadSheetDataMixin, BaseData):
         try:
             data = json.loads(data_as_str)
         except json.JSONDecodeError:
-            data_generator = data_utils.data_generator(data_as_str.splitlines())
+            # lines end as they do in files, other separators may occur in values
             data = data_utils.read_json(
-                data_generator=data_generator,
+                data_generator=StringIO(data_as_str, newline=None),
                 selected_columns=self.selected_keys,
                 read_in_string=False,
             )
diff --git a/dataprofiler/data_readers/parquet_data.py b/dataprofiler/data_readers/parquet_data.py
index 4fa567b..54aa88b 100644
--- a/dataprofiler/data_readers/parquet_data.py
+++ b/dataprofiler/data_readers/parquet_data.py
@@ -96,9 +96,9 @@ class ParquetData(SpreadSheetDataMixin, BaseData):
 
     def _load_data_from_str(self, data_as_str: str) -> pd.DataFrame:
         """Return data from string."""
-        data_generator = data_utils.data_generator(data_as_str.splitlines())
+        # lines end as they do in files, other separators may occur in values
         data, original_df_dtypes = data_utils.read_json_df(
-            data_generator=data_generator, read_in_string=True
+            data_generator=StringIO(data_as_str, newline=None), read_in_string=True
         )
         self._original_df_dtypes = original_df_dtypes
         return data
-- 
2.43.0


From e90aa01c632a6bb8abc49e2f306a23467d4e804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 062/105] fix: split csv records at line ends only

---
 dataprofiler/data_readers/csv_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/csv_data.py b/dataprofiler/data_readers/csv_data.py
index 1459d02..72eef26 100644
--- a/dataprofiler/data_readers/csv_data.py
+++ b/dataprofiler/data_readers/csv_data.py
@@ -619,7 +619,8 @@ class CSVData(SpreadSheetDataMixin, BaseData):
         sep = self.delimiter if self.delimiter else self._default_delimiter
         quote = self.quotechar if self.quotechar else self._default_quotechar
         data = data.to_csv(sep=sep, quotechar=quote, index=False)
-        data = data.splitlines()
+        # lines end with a line feed, other separators may occur in values
+        data = [line.rstrip("\r\n") for line in StringIO(data)]
         return super()._get_data_as_records(data)
 
     @classmethod
-- 
2.43.0


From fd0eaffefc77afacb3ed0dcb87a050dfc4aa49a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 063/105] fix: keep the nodes of an edge out of its attributes

The condition held for every column, so a graph with named nodes could not be read.
---
 dataprofiler/data_readers/graph_data.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 337408a..6bfe8b1 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -269,14 +269,12 @@ class GraphData(BaseData):
             for column in range(0, len(csv_as_list[0])):
                 if csv_as_list[line_index][column] is None:
                     continue
-                if (
-                    column is not self._source_node
-                    or column is not self._destination_node
-                ) and self._column_names is not None:
+                is_node = column in (self._source_node, self._destination_node)
+                if not is_node and self._column_names is not None:
                     attributes[self._column_names[column]] = float(
                         csv_as_list[line_index][column]
                     )
-                elif column is self._source_node or column is self._destination_node:
+                elif is_node:
                     networkx_graph.add_node(
                         self.check_integer(csv_as_list[line_index][column])
                     )
-- 
2.43.0


From 5b343f35a350d122668a1a3e87122d8c23e87b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 064/105] fix: read signed numbers as integer nodes

---
 dataprofiler/data_readers/graph_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index 6bfe8b1..b5874a7 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -298,7 +298,7 @@ class GraphData(BaseData):
     def check_integer(self, string: str) -> Union[int, str]:
         """Check whether string is integer and output integer."""
         stringVal = string
-        if string[0] == ("-", "+"):
+        if string[0] in ("-", "+"):
             stringVal = string[1:]
         if stringVal.isdigit():
             return int(string)
-- 
2.43.0


From 8afaedba1d96ba62172b8e1e0718c935c7ef619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 065/105] fix: ignore the blank lines of an edge list

---
 dataprofiler/data_readers/graph_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index b5874a7..b27ffcf 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -264,6 +264,9 @@ class GraphData(BaseData):
 
         # grab list of edges from source/dest nodes
         for line_index in range(0, len(csv_as_list)):
+            # a blank line holds no edge
+            if not any(isinstance(x, str) and x for x in csv_as_list[line_index]):
+                continue
             # fetch attributes in columns
             attributes = dict()
             for column in range(0, len(csv_as_list[0])):
-- 
2.43.0


From 5403d3581ff34ab31e78e3f3d587366b8084c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 066/105] fix: reload graph data from what is given

---
 dataprofiler/data_readers/graph_data.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dataprofiler/data_readers/graph_data.py b/dataprofiler/data_readers/graph_data.py
index b27ffcf..8325df9 100644
--- a/dataprofiler/data_readers/graph_data.py
+++ b/dataprofiler/data_readers/graph_data.py
@@ -298,6 +298,29 @@ class GraphData(BaseData):
         else:
             self._data = self._format_data_networkx()
 
+    def reload(
+        self,
+        input_file_path: Optional[str] = None,
+        data: Optional[nx.Graph] = None,
+        options: Optional[Dict] = None,
+    ) -> None:
+        """
+        Reload the data class with a new dataset.
+
+        This erases all existing
+        data/options and replaces it with the input data/options.
+
+        :param input_file_path: path to the file being loaded or None
+        :type input_file_path: str
+        :param data: data being loaded into the class instead of an input file
+        :type data: multiple types
+        :param options: options pertaining to the data type
+        :type options: dict
+        :return: None
+        """
+        super().reload(input_file_path, data, options)
+        GraphData.__init__(self, self.input_file_path, data, options)
+
     def check_integer(self, string: str) -> Union[int, str]:
         """Check whether string is integer and output integer."""
         stringVal = string
-- 
2.43.0


From 0ebdcafbe072505975d16aa499e3cbc40f5768c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 067/105] fix: fit the attributes of large graphs

---
 dataprofiler/profilers/graph_profiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 0680a29..2494462 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -403,7 +403,7 @@ class GraphProfiler:
                 data_as_list = self._attribute_data_as_list(graph, attribute)
                 df = pd.Series(data_as_list)
                 best_fit: str = None  # type: ignore[assignment]
-                best_mle: float = 1000
+                best_mle: float = np.inf
                 best_fit_properties: tuple = None  # type: ignore[assignment]
 
                 for distribution in distribution_candidates:
-- 
2.43.0


From 778f53a2bee54b2500e3e137f737863d91555f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 068/105] fix: skip the distributions which cannot be fitted

---
 dataprofiler/profilers/graph_profiler.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index 2494462..bb63b8b 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -411,12 +411,16 @@ class GraphProfiler:
 
                     # scipy 1.11.0 updated the way they handle
                     # the loc parameter in fit() for lognorm
-                    if distribution == st.lognorm and scipy_gte_1_11_0:
-                        fit = distribution.fit(df, superfit=True)
-
-                    else:
-                        fit = distribution.fit(df)
-                    mle = distribution.nnlf(fit, df)
+                    try:
+                        if distribution == st.lognorm and scipy_gte_1_11_0:
+                            fit = distribution.fit(df, superfit=True)
+
+                        else:
+                            fit = distribution.fit(df)
+                        mle = distribution.nnlf(fit, df)
+                    except (RuntimeError, ValueError):
+                        # the distribution cannot be fitted to these values
+                        continue
 
                     if mle <= best_mle:
                         best_distrib = distribution
@@ -424,6 +428,10 @@ class GraphProfiler:
                         best_mle = mle
                         best_fit_properties = fit
 
+                if best_fit is None:
+                    continuous_distributions[attribute] = None
+                    continue
+
                 mean, variance, skew, kurtosis = best_distrib.stats(
                     best_fit_properties, moments="mvsk"
                 )
-- 
2.43.0


From f5e9ec295d6f4261ce4fb2b87a7c8323025afde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 069/105] fix: profile graphs whose edges have different
 attributes

---
 dataprofiler/profilers/graph_profiler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/profilers/graph_profiler.py b/dataprofiler/profilers/graph_profiler.py
index bb63b8b..c3c8081 100644
--- a/dataprofiler/profilers/graph_profiler.py
+++ b/dataprofiler/profilers/graph_profiler.py
@@ -483,6 +483,8 @@ class GraphProfiler:
         for attribute in attributes:
             is_categorical = False
             for u, v in graph.edges():
+                if attribute not in graph[u][v]:
+                    continue
                 attribute_value = graph[u][v][attribute]
                 if float(attribute_value).is_integer():
                     is_categorical = True
@@ -500,17 +502,15 @@ class GraphProfiler:
     @staticmethod
     def _find_all_attributes(graph: nx.Graph) -> list[str]:
         """Compute the number of attributes for each edge."""
-        attribute_list = set(
-            np.array([list(graph.edges[n].keys()) for n in graph.edges()]).flatten()
-        )
+        attribute_list = {key for n in graph.edges() for key in graph.edges[n]}
         return list(attribute_list)
 
     def _attribute_data_as_list(self, graph: nx.Graph, attribute: str) -> list:
         """Fetch graph attribute data and convert it to a readable list."""
         data_as_list = []
         for u, v in list(graph.edges):
-            value = graph[u][v][attribute]
-            data_as_list.append(value)
+            if attribute in graph[u][v]:
+                data_as_list.append(graph[u][v][attribute])
         return data_as_list
 
     def _save_helper(self, filepath: str | None, data_dict: dict) -> None:
-- 
2.43.0


From 20edc491cf5fac2382bcd9c242a6e5a2948f737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 070/105] fix: predict nothing with a regex model which is
 given nothing

---
 dataprofiler/labelers/regex_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index c6a690c..cd40803 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -225,7 +225,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         # Construct array initial regex predictions where background is
         # predicted.
         predictions = [np.empty((0,))] * 100
-        i = 0
+        i = -1
         for i, input_string in enumerate(data):
 
             # Double array size
-- 
2.43.0


From b0af0b5bd2fd31fe35bfeb41f1926f6065a9b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 071/105] fix: predict with the compiled patterns a regex model
 accepts

---
 dataprofiler/labelers/regex_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index cd40803..03cc0fd 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -215,11 +215,13 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         pre_compiled_patterns = copy.deepcopy(regex_patterns)
         for entity_label, entity_patterns in pre_compiled_patterns.items():
             for i in range(len(entity_patterns)):
-                pattern = (
-                    start_pattern + pre_compiled_patterns[entity_label][i] + end_pattern
-                )
+                pattern = pre_compiled_patterns[entity_label][i]
+                pattern_flags = re_flags
+                if isinstance(pattern, re.Pattern):
+                    pattern_flags |= pattern.flags
+                    pattern = pattern.pattern
                 pre_compiled_patterns[entity_label][i] = re.compile(
-                    pattern, flags=re_flags
+                    start_pattern + pattern + end_pattern, flags=pattern_flags
                 )
 
         # Construct array initial regex predictions where background is
-- 
2.43.0


From 7e2c8db6b6989e5178d8ed51fc688215a5ff9be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 072/105] fix: compare regex postprocessors by what they do

---
 dataprofiler/labelers/data_processing.py | 25 ++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index d53980a..389c6e5 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1913,6 +1913,31 @@ class RegexPostProcessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMet
 
         super().__init__(**parameters)
 
+    def __eq__(self, other: object) -> bool:
+        """
+        Check if two processors are equal with one another.
+
+        The random state is not part of what is compared.
+
+        :param self: a processor
+        :param other: a processor
+        :type self: RegexPostProcessor
+        :type other: RegexPostProcessor
+        :return: Whether or not self and other are equal
+        :rtype: bool
+        """
+        if (
+            type(self) != type(other)
+            or not isinstance(other, RegexPostProcessor)
+            or self._parameters["aggregation_func"]
+            != other._parameters["aggregation_func"]
+            or not np.array_equal(
+                self._parameters["priority_order"], other._parameters["priority_order"]
+            )
+        ):
+            return False
+        return True
+
     def _validate_parameters(self, parameters: dict) -> None:
         """
         Validate params set in the processor and raise error if issues exist.
-- 
2.43.0


From 80532f782248a5aefce0fa9d17b4c1c1f3ee85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 073/105] fix: save regex postprocessors whose priority order
 is an array

---
 dataprofiler/labelers/data_processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 389c6e5..2a7ffc0 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -2092,6 +2092,8 @@ class RegexPostProcessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMet
         """
         params = copy.deepcopy(self._parameters)
         params["random_state"] = params["random_state"].getstate()
+        if isinstance(params["priority_order"], np.ndarray):
+            params["priority_order"] = params["priority_order"].tolist()
         with open(
             os.path.join(dirpath, self.processor_type + "_parameters.json"), "w"
         ) as fp:
-- 
2.43.0


From 4438e321c33e2e605472b5349923d0b61e7f8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 074/105] fix: encode labelled data given as arrays

---
 dataprofiler/labelers/data_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 2a7ffc0..9f21f91 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -862,7 +862,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
         max_length = self._parameters["max_length"]
         for char_processed_data in char_processor_gen:
             x = char_processed_data
-            if labels:
+            if labels is not None:
                 x = char_processed_data[0]
                 y = char_processed_data[1]
 
@@ -875,7 +875,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
                     for c in text[0]
                 ]
 
-            if labels:
+            if labels is not None:
                 yield processed_x, y
             else:
                 yield processed_x
-- 
2.43.0


From 259b2d9981ead806729448e015f49a3500db0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 075/105] fix: give no label to cells without characters
 wherever they are

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 9f21f91..e0a1698 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1844,7 +1844,7 @@ class StructCharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrati
         if is_pred_labels:
             reverse_label_mapping = {v: k for k, v in label_mapping.items()}
             rev_label_map_vec_func = np.vectorize(
-                lambda x: reverse_label_mapping.get(x, None)
+                lambda x: reverse_label_mapping.get(x, None), otypes=[object]
             )
             results["pred"] = rev_label_map_vec_func(results["pred"])
         return results
-- 
2.43.0


From ec4721794fff685c02440a3b7076a81878b24335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 076/105] fix: give the last character of a text the label of
 its word

---
 dataprofiler/labelers/data_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index e0a1698..729fc56 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -1102,7 +1102,8 @@ class CharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMeta
                             dominate_label = label
 
                     # Set the dominate label to the entity
-                    for i in range(start_idx, idx):
+                    end_idx = idx if is_separator else idx + 1
+                    for i in range(start_idx, end_idx):
                         entities_in_sample[i] = dominate_label
 
                     # Set to background if not relabeled
-- 
2.43.0


From 682275fd9e5d703596d9e407417aef534f603ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 077/105] fix: char postprocessors equal themselves after
 saving and loading

---
 dataprofiler/labelers/data_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 729fc56..1c3a514 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -919,6 +919,9 @@ class CharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMeta
             word_level labeling
         :type word_level_min_percent: float
         """
+        # lists, as read back from disk, are the same as tuples
+        if isinstance(separators, list):
+            separators = tuple(separators)
         super().__init__(
             default_label=default_label,
             pad_label=pad_label,
-- 
2.43.0


From 96e78c7f55d658f4da78f2fda50bbd2aca064676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 078/105] fix: keep the labels of flattened samples without a
 separator

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 1c3a514..fe7d7ef 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -584,7 +584,7 @@ class CharPreprocessor(BaseDataPreprocessor, metaclass=AutoSubRegistrationMeta):
                             flattened_sample_len -= flatten_separator_len
                             if label_set is not None:
                                 flattened_entities = flattened_entities[
-                                    :-flatten_separator_len
+                                    :flattened_sample_len
                                 ]
                             force_sample = True
                         elif separate_ind == buffer_ind:
-- 
2.43.0


From adfd47ba04e4428e93a66645948d5d2f03adea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:37 +0000
Subject: [PATCH 079/105] fix: report only the columns of the last validation

---
 dataprofiler/validators/base_validators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/validators/base_validators.py b/dataprofiler/validators/base_validators.py
index 5b13d12..5857c0e 100644
--- a/dataprofiler/validators/base_validators.py
+++ b/dataprofiler/validators/base_validators.py
@@ -92,6 +92,7 @@ class Validator:
                 )
 
         self.config = config
+        self.validation_report = dict()
 
         df_type = config.get("df_type", "").lower()
 
-- 
2.43.0


From 4a860f6169a843c2da9206c03d28849af44121dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:05 +0000
Subject: [PATCH 080/105] fix: average the predictions of the labels whose
 indices have gaps

---
 dataprofiler/profilers/data_labeler_column_profile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index d9bfe1e..01341b5 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -275,7 +275,12 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
             return None
 
         avg_predictions = self.sum_predictions / self.sample_size
-        return dict(zip(self.possible_data_labels, avg_predictions))
+        start_index = 1 if self.data_labeler.model.requires_zero_mapping else 0
+        return {
+            label: avg_predictions[index - start_index]
+            for index, label in sorted(self.reverse_label_mapping.items())
+            if index - start_index < len(avg_predictions)
+        }
 
     @property
     def label_representation(self) -> dict[str, float] | None:
-- 
2.43.0


From 7db266d061527a785f97e788d4af5bef6e843c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:05 +0000
Subject: [PATCH 081/105] fix: merge the labels of a column with those of an
 empty column

---
 dataprofiler/profilers/data_labeler_column_profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index 01341b5..0a0d7af 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -182,14 +182,14 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
         # Combine rank distribution
         if self.sample_size or other.sample_size:
             merged_profile._rank_distribution = {
-                key: self._rank_distribution.get(key, 0)
-                + other._rank_distribution.get(key, 0)
-                for key in set(self._rank_distribution) | set(other._rank_distribution)
+                key: self.rank_distribution.get(key, 0)
+                + other.rank_distribution.get(key, 0)
+                for key in set(self.rank_distribution) | set(other.rank_distribution)
             }
 
             # Combine Sum Predictions
             merged_profile._sum_predictions = (
-                self._sum_predictions + other._sum_predictions
+                self.sum_predictions + other.sum_predictions
             )
         return merged_profile
 
-- 
2.43.0


From c2346874440b500f15269969f979792961e618b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:11 +0000
Subject: [PATCH 082/105] fix: plot the histograms of columns named by integers

---
 dataprofiler/reports/graphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 1f0b430..8579114 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -52,7 +52,8 @@ def plot_histograms(
             "both simultaneously"
         )
     elif column_names is not None and not (
-        isinstance(column_names, list) and all(isinstance(x, str) for x in column_names)
+        isinstance(column_names, list)
+        and all(isinstance(x, (int, str)) for x in column_names)
     ):
         raise ValueError(
             "`column_names` must be a list integers or strings "
-- 
2.43.0


From 4110b1e4d571edc8fafbc8802c1d39b9f850cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:11 +0000
Subject: [PATCH 083/105] fix: plot the histograms in the order of the profile

---
 dataprofiler/reports/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 8579114..30459e9 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -84,7 +84,7 @@ def plot_histograms(
             inds_to_graph.extend(profiler._col_name_to_idx[col])
 
     # sort the column indexes to be in the same order as the original profiler.
-    sorted(inds_to_graph)
+    inds_to_graph = sorted(inds_to_graph)
 
     # get all columns which are of type [int, float]
     def is_index_graphable_column(ind_to_graph: int) -> bool:
-- 
2.43.0


From 81c4c490cf95e0559a5541a466454c9840d9eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 084/105] fix: draw every run of missing values at its own
 height

---
 dataprofiler/reports/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/reports/graphs.py b/dataprofiler/reports/graphs.py
index 30459e9..690bcb7 100644
--- a/dataprofiler/reports/graphs.py
+++ b/dataprofiler/reports/graphs.py
@@ -321,6 +321,7 @@ def plot_col_missing_values(
                         )
                     )
                     y_start = next_value
+                    y_end = next_value
                 null_ind += 1
             y_end = null_indexes[-1]
             # plot the patch of the last null value
-- 
2.43.0


From f9863c3bf2a635741ce4866e2cb84c5f2324e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 085/105] fix: keep the storage options of the caller when
 reading from S3

---
 dataprofiler/data_readers/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataprofiler/data_readers/data.py b/dataprofiler/data_readers/data.py
index 8a3e6d9..3c20b11 100644
--- a/dataprofiler/data_readers/data.py
+++ b/dataprofiler/data_readers/data.py
@@ -66,6 +66,7 @@ class Data:
 
         if is_valid_url(input_file_path):
             if S3Helper.is_s3_uri(input_file_path, logger=logger):
+                options = options.copy()
                 storage_options = options.pop("storage_options", {})
                 s3 = S3Helper.create_s3_client(**storage_options)
                 input_file_path = S3Helper.get_s3_uri(
-- 
2.43.0


From 168e2ee0986b4fa88bd966a74f953b080a8f187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 086/105] fix: read S3 objects whose key contains '#' or '?'

---
 dataprofiler/data_readers/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/data_readers/data_utils.py b/dataprofiler/data_readers/data_utils.py
index 22ab4a7..c2f1dff 100644
--- a/dataprofiler/data_readers/data_utils.py
+++ b/dataprofiler/data_readers/data_utils.py
@@ -1088,9 +1088,12 @@ class S3Helper:
                 the downloaded S3 object.
         """
         # Parse the S3 URI
-        parsed_uri = urllib.parse.urlsplit(s3_uri)
+        parsed_uri = urllib.parse.urlsplit(s3_uri, allow_fragments=False)
         bucket_name = parsed_uri.netloc
         file_key = parsed_uri.path.lstrip("/")
+        if parsed_uri.query:
+            # "?" is a valid character of object keys
+            file_key += "?" + parsed_uri.query
         # Download the S3 object
         response = s3_client.get_object(Bucket=bucket_name, Key=file_key)
 
-- 
2.43.0


From ef090120d5d7918a46c488cfe895a3ed9bffb561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 087/105] fix: merge the chi-squared matrix with that of a
 profile of nulls

The matrix of the other profile was taken as it was, in the order of the
other profile's columns.
---
 dataprofiler/profilers/profile_builder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 491ac62..11239f3 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -1852,11 +1852,9 @@ class StructuredProfiler(BaseProfiler):
             chi2_mat2 = other.chi2_matrix
             n1 = self.total_samples - self.row_is_null_count
             n2 = other.total_samples - other.row_is_null_count
-            if n1 == 0:
+            if not self._profile:
                 merged_profile.chi2_matrix = chi2_mat2
-            elif n2 == 0:
-                merged_profile.chi2_matrix = chi2_mat1
-            elif chi2_mat1 is None or chi2_mat2 is None:
+            elif (n1 and chi2_mat1 is None) or (n2 and chi2_mat2 is None):
                 merged_profile.chi2_matrix = None
             else:
                 merged_profile.chi2_matrix = merged_profile._update_chi2()
-- 
2.43.0


From 019febd19e62e99a58ac9bd0f8e6906ae77d704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 088/105] fix: correlate the selected columns whose names hold
 capitals

The names were looked up as given in a schema of lower case names, which gave
no correlation and added a column to the schema, so that no further data fit.
---
 dataprofiler/profilers/profile_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 11239f3..fde2120 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2336,8 +2336,11 @@ class StructuredProfiler(BaseProfiler):
         columns = self.options.correlation.columns
         column_ids = list(range(len(self._profile)))
         if columns is not None:
+            # the schema keeps the names in lower case
             column_ids = [
-                idx for col_name in columns for idx in self._col_name_to_idx[col_name]
+                idx
+                for col_name in columns
+                for idx in self._col_name_to_idx.get(col_name.lower(), [])
             ]
         clean_column_ids = []
         for idx in column_ids:
-- 
2.43.0


From c773b8f46c0fe32c2ab8369a2fabd8e4b2e37107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 089/105] fix: merge null replication metrics when a column
 holds nothing in one profile

The sums and means over the rows with a value became NaN.
---
 dataprofiler/profilers/profile_builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index fde2120..56b7685 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2744,6 +2744,13 @@ class StructuredProfiler(BaseProfiler):
                 for idx in other_ids
             ]
         )
+        # a column without values in one of the profiles adds nothing to its sum
+        for idx, other_idx in enumerate(other_ids):
+            self_col, other_col = self._profile[idx], other._profile[other_idx]
+            if self_col.null_count == self_col.sample_size:
+                self_row_sum[idx] = 0
+            elif other_col.null_count == other_col.sample_size:
+                other_row_sum[idx] = 0
         total_row_sum: np.ndarray = self_row_sum + other_row_sum
         merged_properties: dict = defaultdict(dict)
         for col_id in range(len(self._profile)):
-- 
2.43.0


From 2465024c241772c9c40d5f2fe75ebfb5ea988e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 090/105] fix: give the labelers back to the profiles which
 merge_profile_list merged

They could not be reported or updated afterwards.
---
 dataprofiler/profilers/profiler_utils.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/dataprofiler/profilers/profiler_utils.py b/dataprofiler/profilers/profiler_utils.py
index 79b9233..8964801 100644
--- a/dataprofiler/profilers/profiler_utils.py
+++ b/dataprofiler/profilers/profiler_utils.py
@@ -840,16 +840,21 @@ def merge_profile_list(
     # remove the labeler model from the first profile object
     # assuming that the labeler models are all the same across each profile
     # in the list
-    for profile in list_of_profiles:
-        data_labeler = profile._remove_data_labelers()
+    data_labelers = [profile._remove_data_labelers() for profile in list_of_profiles]
 
-    while len(list_of_profiles) > 1:
-        list_of_profiles_iterator = chunk(list_of_profiles, 2)
-        with mp.Pool(pool_count) as p:
-            list_of_profiles = p.starmap(merge, list_of_profiles_iterator)
-
-    list_of_profiles[0]._restore_data_labelers(data_labeler)
-    return list_of_profiles[0]
+    merged_profiles = list_of_profiles
+    try:
+        while len(merged_profiles) > 1:
+            profiles_iterator = chunk(merged_profiles, 2)
+            with mp.Pool(pool_count) as p:
+                merged_profiles = p.starmap(merge, profiles_iterator)
+    finally:
+        # the merged profiles go on with their labelers
+        for profile, data_labeler in zip(list_of_profiles, data_labelers):
+            profile._restore_data_labelers(data_labeler)
+
+    merged_profiles[0]._restore_data_labelers(data_labelers[-1])
+    return merged_profiles[0]
 
 
 def reload_labeler_from_options_or_get_new(
-- 
2.43.0


From 41eb878e4e6c8fbcbd716c2c7e965f5a0c8fe321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 091/105] fix: merge a list of profiles which label a column
 that is empty in one

The workers of merge_profile_list have no labeler to ask for the labels of the
empty column.
---
 .../profilers/data_labeler_column_profile.py  | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/dataprofiler/profilers/data_labeler_column_profile.py b/dataprofiler/profilers/data_labeler_column_profile.py
index 0a0d7af..8aefb81 100644
--- a/dataprofiler/profilers/data_labeler_column_profile.py
+++ b/dataprofiler/profilers/data_labeler_column_profile.py
@@ -116,7 +116,11 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
                 "in both DataLabeler Profilers being merged, "
                 "as required".format("_min_top_label_prob")
             )
-        if data_labeler.possible_data_labels != data_labeler2.possible_data_labels:
+        if (
+            data_labeler.sample_size
+            and data_labeler2.sample_size
+            and data_labeler.possible_data_labels != data_labeler2.possible_data_labels
+        ):
             raise ValueError(
                 "Sorry, can't merge profiles: {} are not the same "
                 "in both DataLabeler Profilers being merged, "
@@ -179,17 +183,20 @@ class DataLabelerColumn(BaseColumnProfiler["DataLabelerColumn"]):
             merged_profile.__calculations, self.__calculations, other.__calculations
         )
 
-        # Combine rank distribution
-        if self.sample_size or other.sample_size:
+        # a column which has labelled nothing yet has nothing to combine
+        labelled = [column for column in (self, other) if column.sample_size]
+        if labelled:
+            merged_profile._possible_data_labels = labelled[0]._possible_data_labels
+
+            # Combine rank distribution
             merged_profile._rank_distribution = {
-                key: self.rank_distribution.get(key, 0)
-                + other.rank_distribution.get(key, 0)
-                for key in set(self.rank_distribution) | set(other.rank_distribution)
+                key: sum(column.rank_distribution.get(key, 0) for column in labelled)
+                for key in set().union(*(col.rank_distribution for col in labelled))
             }
 
             # Combine Sum Predictions
-            merged_profile._sum_predictions = (
-                self.sum_predictions + other.sum_predictions
+            merged_profile._sum_predictions = sum(
+                column.sum_predictions for column in labelled
             )
         return merged_profile
 
-- 
2.43.0


From 59d00616b91d2f8516e7734278bfb145d3a7a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 092/105] fix: report all modes when top_k_modes is None

None is a valid setting, with which ties and merges raised a TypeError.
---
 dataprofiler/profilers/numerical_column_stats.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/numerical_column_stats.py b/dataprofiler/profilers/numerical_column_stats.py
index fd55955..795a273 100644
--- a/dataprofiler/profilers/numerical_column_stats.py
+++ b/dataprofiler/profilers/numerical_column_stats.py
@@ -58,7 +58,7 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
             )
         self.min: int | float | np.float64 | np.int64 | None = None
         self.max: int | float | np.float64 | np.int64 | None = None
-        self._top_k_modes: int = 5  # By default, return at max 5 modes
+        self._top_k_modes: int | None = 5  # By default, return at max 5 modes
         self.sum: int | float | np.float64 | np.int64 = np.float64(0)
         self._biased_variance: float | np.float64 = np.nan
         self._biased_skewness: float | np.float64 = np.nan
@@ -361,7 +361,11 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 self.quantiles = copy.deepcopy(other.quantiles)
 
         # Merge max k mode count
-        self._top_k_modes = max(other1._top_k_modes, other2._top_k_modes)
+        self._top_k_modes = (
+            None  # no limit
+            if other1._top_k_modes is None or other2._top_k_modes is None
+            else max(other1._top_k_modes, other2._top_k_modes)
+        )
         # Merge median enable/disable option
         self._median_is_enabled = (
             other1._median_is_enabled and other2._median_is_enabled
@@ -1128,7 +1132,9 @@ class NumericStatsMixin(BaseColumnProfiler[NumericStatsMixinT], metaclass=abc.AB
                 highest_idxs = [i]
                 cur_max = bin_counts[i]
                 count = 1
-            elif bin_counts[i] == cur_max and count < self._top_k_modes:
+            elif bin_counts[i] == cur_max and (
+                self._top_k_modes is None or count < self._top_k_modes
+            ):
                 highest_idxs.append(i)
                 count += 1
         highest_idxs = np.array(highest_idxs)  # type: ignore
-- 
2.43.0


From c9404ac0ee460307e33e29007c4f9ccaaadeef3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 093/105] fix: reject None as the number of quantiles

It is not the positive integer asked for and profiling failed with it.
---
 dataprofiler/profilers/profiler_options.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 69539b3..88f51cb 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -268,9 +268,7 @@ class HistogramAndQuantilesOption(BooleanOption["HistogramAndQuantilesOption"]):
                     "following: {}.".format(variable_path, valid_methods)
                 )
 
-        if self.num_quantiles is not None and (
-            not isinstance(self.num_quantiles, int) or self.num_quantiles < 1
-        ):
+        if not isinstance(self.num_quantiles, int) or self.num_quantiles < 1:
             errors.append(f"{variable_path}.num_quantiles must be a positive integer.")
 
         return errors
-- 
2.43.0


From 0ea0e5583130b1787d2cfb90c2b4ecf9c8768b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 094/105] fix: reject settings which no count-min sketch can be
 made with

A confidence of 0 or 1 and a relative error of 0 gave a sketch without hashes or
buckets and ended the process, no heavy hitters a division by zero, and no
confidence a profile without categories.
---
 dataprofiler/profilers/profiler_options.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 88f51cb..1efb75e 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1004,8 +1004,8 @@ class CategoricalOptions(BaseInspectorOptions["CategoricalOptions"]):
 
         if self.cms_confidence is not None and (
             not isinstance(self.cms_confidence, float)
-            or self.cms_confidence < 0
-            or self.cms_confidence > 1.0
+            or self.cms_confidence <= 0
+            or self.cms_confidence >= 1.0
         ):
             errors.append(
                 "{}.cms_confidence must be either None"
@@ -1014,7 +1014,7 @@ class CategoricalOptions(BaseInspectorOptions["CategoricalOptions"]):
 
         if self.cms_relative_error is not None and (
             not isinstance(self.cms_relative_error, float)
-            or self.cms_relative_error < 0
+            or self.cms_relative_error <= 0
             or self.cms_relative_error > 1.0
         ):
             errors.append(
@@ -1022,12 +1022,21 @@ class CategoricalOptions(BaseInspectorOptions["CategoricalOptions"]):
                 " or a float between 0 and 1".format(variable_path)
             )
 
-        if self.cms and not isinstance(self.cms_max_num_heavy_hitters, int):
+        if self.cms and (
+            not isinstance(self.cms_max_num_heavy_hitters, int)
+            or self.cms_max_num_heavy_hitters <= 0
+        ):
             errors.append(
                 "{}.if using count min sketch, you must pass an"
                 "integer value for cms_max_num_heavy_hitters".format(variable_path)
             )
 
+        if self.cms and (self.cms_confidence is None or self.cms_relative_error is None):
+            errors.append(
+                "{}.if using count min sketch, you must pass "
+                "cms_confidence and cms_relative_error".format(variable_path)
+            )
+
         return errors
 
 
-- 
2.43.0


From f68186e96deaebf32615f81d85786e36ccf774ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:12 +0000
Subject: [PATCH 095/105] fix: correlate when a column without numbers is
 selected twice

---
 dataprofiler/profilers/profile_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 56b7685..6386902 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2349,7 +2349,7 @@ class StructuredProfiler(BaseProfiler):
                 self._profile[idx].profiles["data_type_profile"],
             ).selected_data_type
             if data_type not in ["int", "float"]:
-                clean_samples.pop(idx)
+                clean_samples.pop(idx, None)
             else:
                 clean_column_ids.append(idx)
         data = pd.DataFrame(clean_samples).apply(pd.to_numeric, errors="coerce")
-- 
2.43.0


From 518dcba06076f24da47f4acb972adb0d07f449d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:47 +0000
Subject: [PATCH 096/105] fix: reject correlation without the variances it is
 computed from

Profiling with such options ended in a KeyError.
---
 dataprofiler/profilers/profiler_options.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dataprofiler/profilers/profiler_options.py b/dataprofiler/profilers/profiler_options.py
index 1efb75e..0ff3f8f 100644
--- a/dataprofiler/profilers/profiler_options.py
+++ b/dataprofiler/profilers/profiler_options.py
@@ -1631,6 +1631,23 @@ class StructuredOptions(BaseOption["StructuredOptions"]):
                 "Chi-squared test in enabled."
             )
 
+        if (
+            isinstance(self.correlation, CorrelationOptions)
+            and self.correlation.is_enabled
+        ):
+            for column in ("int", "float"):
+                option = self.properties[column]
+                if (
+                    isinstance(option, NumericalOptions)
+                    and option.is_enabled
+                    and isinstance(option.variance, BooleanOption)
+                    and not option.variance.is_enabled
+                ):
+                    errors.append(
+                        "{}.{}: The numeric stats must toggle on the sum and variance "
+                        "if correlation is toggled on.".format(variable_path, column)
+                    )
+
         return errors
 
     @classmethod
-- 
2.43.0


From 8573731c4a1ca71830c77897666288ddde7f7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:37 +0000
Subject: [PATCH 097/105] fix: keep the columns without numbers when
 correlating

They were taken out of the samples which the null replication metrics are computed
from afterwards, which ended in an error.
---
 dataprofiler/profilers/profile_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 6386902..d90d729 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -2342,6 +2342,8 @@ class StructuredProfiler(BaseProfiler):
                 for col_name in columns
                 for idx in self._col_name_to_idx.get(col_name.lower(), [])
             ]
+        # the columns which are left out here are still needed by other metrics
+        clean_samples = dict(clean_samples)
         clean_column_ids = []
         for idx in column_ids:
             data_type = cast(
-- 
2.43.0


From eefd446d62dd7152ca8f1390b221a530ed1809df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:04 +0000
Subject: [PATCH 098/105] fix: keep the order of the rows when nulls are
 removed

The cells were put in the order of a set of their index labels, so the order of
sampled columns and of data frames with another index was that of the labels.
---
 dataprofiler/profilers/profile_builder.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index d90d729..03fa476 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -618,7 +618,7 @@ class StructuredColProfiler:
             )
 
         na_columns: dict = dict()
-        true_sample_set = set()
+        true_sample_ids: list = list()
         total_sample_size = 0
         # group the null values by their regex flags
         queries: dict = dict()
@@ -637,7 +637,7 @@ class StructuredColProfiler:
                 matches |= df_subset.str.match(regex, flags=flags)
 
             # Split series into None samples and true samples
-            true_sample_set.update(df_subset[~matches].index)
+            true_sample_ids.extend(np.asarray(chunked_sample_ids)[~matches.to_numpy()])
 
             # Iterate over all the Nones
             for index, cell in df_subset[matches].items():
@@ -646,7 +646,7 @@ class StructuredColProfiler:
             # Ensure minimum number of true samples met
             # and if total_sample_size >= sample size, exit
             if (
-                len(true_sample_set) >= min_true_samples
+                len(true_sample_ids) >= min_true_samples
                 and total_sample_size >= sample_size
             ):
                 break
@@ -655,16 +655,9 @@ class StructuredColProfiler:
         if sample_ids is None:
             sample_ind_generator.close()
 
-        # If min_true_samples exists, sort
-        true_sample_list = (
-            sorted(true_sample_set)
-            if min_true_samples > 0 or sample_ids is None
-            else list(true_sample_set)
-        )
-
-        # Split out true values for later utilization
-        df_series = df_series.loc[true_sample_list]
-        total_na = total_sample_size - len(true_sample_list)
+        # Split out true values for later utilization, in the order of the data
+        df_series = df_series.iloc[sorted(true_sample_ids)]
+        total_na = total_sample_size - len(true_sample_ids)
 
         rng = rng_utils.get_random_number_generator()
 
-- 
2.43.0


From d9ffdaf979ccb6610b1ba60ae7bc29177d8b7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:04 +0000
Subject: [PATCH 099/105] fix: profile categorical columns with missing cells
 and sparse columns

The cells were not turned into text, which ended in an error.
---
 dataprofiler/profilers/profile_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataprofiler/profilers/profile_builder.py b/dataprofiler/profilers/profile_builder.py
index 03fa476..4fb1383 100644
--- a/dataprofiler/profilers/profile_builder.py
+++ b/dataprofiler/profilers/profile_builder.py
@@ -585,6 +585,10 @@ class StructuredColProfiler:
                 },
             )
 
+        # Categories leave out missing cells and sparse columns stay sparse otherwise
+        if isinstance(df_series.dtype, (pd.CategoricalDtype, pd.SparseDtype)):
+            df_series = df_series.astype(object)
+
         # Pandas reads empty values in the csv files as nan
         df_series = df_series.apply(str)
 
-- 
2.43.0


From 0f5cc7e73e376f453e87fe404cd9664f70ab2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:47 +0000
Subject: [PATCH 100/105] fix: serialize reports of columns named by dates or
 booleans

The serializable format kept the names as they were, which json cannot write.
---
 dataprofiler/profilers/helpers/report_helpers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataprofiler/profilers/helpers/report_helpers.py b/dataprofiler/profilers/helpers/report_helpers.py
index 382a584..f153927 100644
--- a/dataprofiler/profilers/helpers/report_helpers.py
+++ b/dataprofiler/profilers/helpers/report_helpers.py
@@ -273,6 +273,11 @@ def _prepare_report(
 
         elif isinstance(value, float) and output_format == "pretty":
             fmt_report[key] = round(value, 4)
+        elif output_format == "serializable" and not isinstance(
+            value, (str, int, float, bool, tuple, type(None))
+        ):
+            # i.e. the name of a column is a date
+            fmt_report[key] = value.item() if isinstance(value, np.generic) else str(value)
         else:
             fmt_report[key] = value
 
-- 
2.43.0


From 65e7dfa5ba170a380e10b18595f3fd3fdb39e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:48 +0000
Subject: [PATCH 101/105] fix: CharEncodedPreprocessor accepted an encoding_map
 which is not dict[str, int]

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index fe7d7ef..a2f53dd 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -827,7 +827,7 @@ class CharEncodedPreprocessor(CharPreprocessor, metaclass=AutoSubRegistrationMet
                     are_dict_values_int = map(
                         lambda x: isinstance(x, int), value.values()
                     )
-                    if all(are_dict_keys_str) or all(are_dict_values_int):
+                    if all(are_dict_keys_str) and all(are_dict_values_int):
                         continue
                 errors.append(f"`{param}` must be a dict[str, int]")
             elif param not in allowed_parameters:
-- 
2.43.0


From 548432d7deab95bfe05589281ffa70f229096322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:48 +0000
Subject: [PATCH 102/105] fix: get_parameters of a processor with a list of
 names gave away the live parameters

---
 dataprofiler/labelers/data_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index a2f53dd..49bd3bd 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -116,7 +116,7 @@ class BaseDataProcessor(metaclass=abc.ABCMeta):
                         param, self.__class__.__name__
                     )
                 )
-        return param_dict
+        return copy.deepcopy(param_dict)
 
     def set_params(self, **kwargs: Any) -> None:
         """Set the parameters if they exist given kwargs."""
-- 
2.43.0


From 49e339f1cffc4197db8ec3e16fa9a6e94579bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:48 +0000
Subject: [PATCH 103/105] fix: labeler models shared and extended the
 parameters dict of the caller

---
 dataprofiler/labelers/base_model.py        | 2 +-
 dataprofiler/labelers/column_name_model.py | 3 +--
 dataprofiler/labelers/regex_model.py       | 3 +--
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/dataprofiler/labelers/base_model.py b/dataprofiler/labelers/base_model.py
index 032c2ea..629d6d2 100644
--- a/dataprofiler/labelers/base_model.py
+++ b/dataprofiler/labelers/base_model.py
@@ -54,7 +54,7 @@ class BaseModel(metaclass=abc.ABCMeta):
         # initialize class
         self._model: Any = None
         self._validate_parameters(parameters)
-        self._parameters: dict = parameters
+        self._parameters: dict = dict(parameters)
         self._label_mapping: dict[str, int] = None  # type: ignore
 
         self.set_label_mapping(label_mapping)
diff --git a/dataprofiler/labelers/column_name_model.py b/dataprofiler/labelers/column_name_model.py
index d698cfd..5d46002 100644
--- a/dataprofiler/labelers/column_name_model.py
+++ b/dataprofiler/labelers/column_name_model.py
@@ -37,8 +37,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         :return: None
         """
         # parameter initialization
-        if not parameters:
-            parameters = {}
+        parameters = dict(parameters) if parameters else {}
         parameters.setdefault("false_positive_dict", None)
         parameters.setdefault("true_positive_dict", None)
         parameters.setdefault("include_label", True)
diff --git a/dataprofiler/labelers/regex_model.py b/dataprofiler/labelers/regex_model.py
index 03cc0fd..bff1653 100644
--- a/dataprofiler/labelers/regex_model.py
+++ b/dataprofiler/labelers/regex_model.py
@@ -54,8 +54,7 @@ class RegexModel(BaseModel, metaclass=AutoSubRegistrationMeta):
         :return: None
         """
         # parameter initialization
-        if not parameters:
-            parameters = {}
+        parameters = dict(parameters) if parameters else {}
         parameters.setdefault("regex_patterns", {})
         parameters.setdefault("encapsulators", {"start": "", "end": ""})
         parameters.setdefault("ignore_case", True)
-- 
2.43.0


From cd4bc033dc31b49ff8db5ba59281940f0e57fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:48 +0000
Subject: [PATCH 104/105] fix: ColumnNameModel parameters could not be set one
 by one and were not validated as documented

---
 dataprofiler/labelers/column_name_model.py | 34 ++++++++++------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/dataprofiler/labelers/column_name_model.py b/dataprofiler/labelers/column_name_model.py
index 5d46002..5ba8c71 100644
--- a/dataprofiler/labelers/column_name_model.py
+++ b/dataprofiler/labelers/column_name_model.py
@@ -76,19 +76,8 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
 
         list_of_accepted_parameters = optional_parameters + required_parameters
 
-        if parameters["true_positive_dict"]:
-            label_map_dict_keys = set(self.label_mapping.keys())
-            true_positive_unique_labels = set(
-                parameters["true_positive_dict"][0].values()
-            )
-
-            # if not a subset that is less than or equal to
-            # label mapping dict
-            if true_positive_unique_labels > label_map_dict_keys:
-                errors.append(
-                    """`true_positive_dict` must be a subset
-                        of the `label_mapping` values()"""
-                )
+        # parameters which are not being set keep their current values
+        current = {**getattr(self, "_parameters", {}), **parameters}
 
         for param in parameters:
             value = parameters[param]
@@ -96,7 +85,7 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
                 param == "false_positive_dict"
                 and value is not None
                 and (not isinstance(value, list) or "attribute" not in value[0].keys())
-                and parameters["negative_threshold_config"] is not None
+                and current.get("negative_threshold_config") is not None
             ):
                 errors.append(
                     """`{}` must be a list of dictionaries with at
@@ -106,9 +95,11 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
                 )
             elif param == "true_positive_dict" and (
                 not isinstance(value, list)
-                or not isinstance(value[0], dict)
-                and "attribute" not in value[0].keys()
-                and "label" not in value[0].keys()
+                or not value
+                or not all(
+                    isinstance(entry, dict) and "attribute" in entry and "label" in entry
+                    for entry in value
+                )
             ):
                 errors.append(
                     """`{}` is a required parameters that must be a list
@@ -117,13 +108,20 @@ class ColumnNameModel(BaseModel, metaclass=AutoSubRegistrationMeta):
                         param
                     )
                 )
+            elif param == "true_positive_dict" and not {
+                entry["label"] for entry in value
+            }.issubset(self.label_mapping):
+                errors.append(
+                    """`true_positive_dict` must be a subset
+                        of the `label_mapping` values()"""
+                )
             elif param == "include_label" and not isinstance(value, bool):
                 errors.append(
                     f"`{param}` is a required parameter that must be a boolean."
                 )
             elif param == "negative_threshold_config" and (
                 not isinstance(value, int)
-                and parameters["false_positive_dict"] is not None
+                and current.get("false_positive_dict") is not None
             ):
                 errors.append(
                     "`{}` is an optional parameter that must be a boolean.".format(
-- 
2.43.0


From ff7e7fe43119ca96e9ed1eca5bbafd14293c63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:48 +0000
Subject: [PATCH 105/105] fix: a CharPostprocessor whose separators were set as
 a list was unequal to its saved copy

---
 dataprofiler/labelers/data_processing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataprofiler/labelers/data_processing.py b/dataprofiler/labelers/data_processing.py
index 49bd3bd..c3b9108 100644
--- a/dataprofiler/labelers/data_processing.py
+++ b/dataprofiler/labelers/data_processing.py
@@ -932,6 +932,13 @@ class CharPostprocessor(BaseDataPostprocessor, metaclass=AutoSubRegistrationMeta
             word_level_min_percent=word_level_min_percent,
         )
 
+    def set_params(self, **kwargs: Any) -> None:
+        """Set the parameters if they exist given kwargs."""
+        # lists, as read back from disk, are the same as tuples
+        if isinstance(kwargs.get("separators"), list):
+            kwargs["separators"] = tuple(kwargs["separators"])
+        super().set_params(**kwargs)
+
     def _validate_parameters(self, parameters: dict) -> None:
         """
         Validate params set in processor and raise error if issues exist.
-- 
2.43.0

