From 4222c33b4d5ee42c34bc4a6320c11fb074ec6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:28 +0000
Subject: [PATCH 01/30] fix: give IntegerCol a virtual destructor, it is
 deleted through the base class

---
 src/data_store/column.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_store/column.h b/src/data_store/column.h
index f99e583..4627be2 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -70,6 +70,7 @@ class IntegerizedColumn : public Column {
   // An interface to access integer vector of different bits.
   class IntegerCol {
    public:
+    virtual ~IntegerCol() {}
     virtual uint operator [] (uint) const = 0;
     inline bool missing(uint i) const {
       return (*this)[i] == 0;
-- 
2.43.0


From 505cf2ee57d87e8d8847beee51f8b6a094a4f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 02/30] fix: no division by zero when single values use up all
 the float buckets

---
 src/data_store/column.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index d865b9b..82382cf 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -285,9 +285,9 @@ void BucketizedFloatColumn::BuildBuckets() {
       ++it;
     }
   }
-  // Use uniform binning for the rest.
-  uint left_over_capacity =
-      max(static_cast<unsigned long>(1), left_over / (num_buckets_ - bucket_maxs_.size()));
+  // Use uniform binning for the rest. The single values may have used up all the buckets.
+  int left_over_buckets = max(1, num_buckets_ - static_cast<int>(bucket_maxs_.size()));
+  uint left_over_capacity = max(1, left_over / left_over_buckets);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
   bucket_maxs_.push_back(numeric_limits<float>::max());
-- 
2.43.0


From 4c17515eaa0108e07617bada82ac20da65eb1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 03/30] fix: check the row count of a new column against
 zero-row columns as well

---
 src/data_store/data_store.cc           | 2 +-
 src/data_store/flatfiles_data_store.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 41c83e4..4d829f6 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -126,7 +126,7 @@ Status DataStore::Add(unique_ptr<Column>&& column) {
   if (it != column_map_.end()) {
     return Status(error::ALREADY_EXISTS, fmt::format("Column {0} already exists.", column->name()));
   }
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     return Status(error::OUT_OF_RANGE,
                   fmt::format("Row size consistency check failed for column {0} (old {1} vs. new {2})",
                               column->name(), num_rows(), column->size()));
diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 49377b4..24ccc70 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,7 +74,7 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
-  if (num_rows() > 0 && num_rows() != column->size()) {
+  if (!column_map_.empty() && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
     return false;
-- 
2.43.0


From bf28c4931f8a692ab78b35ae2ee420296b8b90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 04/30] fix: load a TSV column named in several roles once,
 refuse roles of different types

---
 src/data_store/tsv_data_store.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 1e6f8f0..5cd18f1 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -50,6 +50,19 @@ Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& colu
   return Status::OK;
 }
 
+// Checks whether the column is to be created. A column that is named more than once is loaded
+// only once, and all of its roles have to agree on its type.
+Status CheckDuplicate(const unordered_map<string, unique_ptr<Column>>& column_map,
+                      const string& header, Column::ColumnType type, bool* exists) {
+  auto it = column_map.find(header);
+  *exists = it != column_map.end();
+  if (*exists && it->second->type() != type) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Column {0} is configured with different types.", header));
+  }
+  return Status::OK;
+}
+
 }  // namespace
 
 TSVDataStore::TSVDataStore(const vector<string>& tsvs, const Config& config) {
@@ -151,6 +164,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}.", header, first_tsv));
     }
+    bool exists = false;
+    Status status = CheckDuplicate(column_map_, header, Column::kBucketizedFloatColumn, &exists);
+    if (!status.ok()) return status;
+    if (exists) continue;
     column_map_[header].reset(new BucketizedFloatColumn(header));
     bucketized_float_columns_.push_back(
         make_pair(static_cast<BucketizedFloatColumn*>(column_map_[header].get()),
@@ -173,6 +190,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
       return Status(error::NOT_FOUND,
                     fmt::format("Failed to find column {0} in {1}", header, first_tsv));
     }
+    bool exists = false;
+    Status status = CheckDuplicate(column_map_, header, Column::kRawFloatColumn, &exists);
+    if (!status.ok()) return status;
+    if (exists) continue;
     column_map_[header].reset(new RawFloatColumn(header));
     raw_float_columns_.push_back(
         make_pair(static_cast<RawFloatColumn*>(column_map_[header].get()),
@@ -190,6 +211,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    bool exists = false;
+    Status status = CheckDuplicate(column_map_, header, Column::kStringColumn, &exists);
+    if (!status.ok()) return status;
+    if (exists) continue;
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
@@ -203,6 +228,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
     if (it == map_from_header_to_index.end()) {
       return Status(error::NOT_FOUND, "Failed to find column " + header + " in " + first_tsv);
     }
+    bool exists = false;
+    Status status = CheckDuplicate(column_map_, header, Column::kStringColumn, &exists);
+    if (!status.ok()) return status;
+    if (exists) continue;
     column_map_[header].reset(new StringColumn(header));
     string_columns_.push_back(
         make_pair(static_cast<StringColumn*>(column_map_[header].get()),
-- 
2.43.0


From 61f1aa664ddc84268672d8ef714d0c07a3c7a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 05/30] fix: stop reading a TSV block or flat file when the
 read fails, e.g. on a directory

---
 src/data_store/flatfiles_data_store.cc | 4 ++--
 src/data_store/tsv_block.cc            | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 24ccc70..ae0229f 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -86,7 +86,7 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
 
 unique_ptr<Column> FlatfilesDataStore::LoadStringColumn(ifstream& in, const string& column_name) {
   vector<string> raw_strings;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
@@ -101,7 +101,7 @@ unique_ptr<Column> FlatfilesDataStore::LoadFloatColumn(ifstream& in,
                                                        const string& column_name,
                                                        bool bucketized) {
   vector<float> raw_floats;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (strings::HasPrefix(line, "#") || (line.empty() && !in.good())) {
       continue;
diff --git a/src/data_store/tsv_block.cc b/src/data_store/tsv_block.cc
index b520894..8a9f118 100644
--- a/src/data_store/tsv_block.cc
+++ b/src/data_store/tsv_block.cc
@@ -57,7 +57,7 @@ Status TSVBlock::ReadTSV(const string& tsv,
   }
 
   int num_rows = 0;
-  while (!in.eof()) {
+  while (in.good()) {
     string line = ReadLine(in);
     if (line.empty()) continue;
     auto row = strings::split(line, "\t");
@@ -96,6 +96,9 @@ Status TSVBlock::ReadTSV(const string& tsv,
       }
     }
   }
+  if (in.bad() || !in.eof()) {
+    return Status(error::UNKNOWN, fmt::format("Failed to read TSV {0}.", tsv));
+  }
   stopwatch.End();
   LOG(INFO) << "Loaded " << float_columns_.size() << " float columns"
             << " and " << string_columns_.size() << " string columns, each with "
-- 
2.43.0


From 958a1a2d6207990ca56c718ae279b5e262d493ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 06/30] fix: a cell with an embedded NUL is not a number

---
 src/utils/utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index 939d812..e70eefb 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -89,7 +89,7 @@ vector<string> split(const string& s, const string& delim) {
 bool StringCast(const string& s, float* v) {
     char* pEnd;
     *v = strtof(s.c_str(), &pEnd);
-    return *pEnd == '\0' && s.size() != 0;
+    return pEnd == s.c_str() + s.size() && s.size() != 0;
 }
 
 bool HasPrefix(const string& s, const string& prefix) {
-- 
2.43.0


From c81da07e8f5d7d94ce342188b393b5c736568dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 07/30] fix: a concurrent load of the same flat file must not
 replace the column already handed out

---
 src/data_store/flatfiles_data_store.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index ae0229f..341bb21 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -74,6 +74,10 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
   }
 
   lock_guard<mutex> lock(mutex_);
+  if (column_map_.find(column_name) != column_map_.end()) {
+    // Another thread has loaded the column in the meantime, and its users keep pointers to it.
+    return true;
+  }
   if (!column_map_.empty() && num_rows() != column->size()) {
     LOG(ERROR) << "Row size consistency check failed for " << column_name
                << "(old " << num_rows() << " vs. " << "new " << column->size();
-- 
2.43.0


From defe3c3ea2fffb16ebd02ec68f20b47dfc779836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 08/30] fix: keep the split threshold between the values it
 separates

---
 src/gbdt_algo/split_algo.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index b12899c..682b768 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -221,14 +221,19 @@ bool FindBestFloatSplit(const BucketizedFloatColumn& feature,
   split->set_gain(split_point.gain);
   split->mutable_float_split()->set_missing_to_right_child(split_point.missing_on_right);
 
-  float left_limit = feature.get_bucket_max(histogram.value(split_point.left_point));
-  float right_limit =feature.get_bucket_min(histogram.value(split_point.left_point + 1));
+  // The middle is computed in double precision, as the sum may exceed the range of floats.
+  double left_limit = feature.get_bucket_max(histogram.value(split_point.left_point));
+  double right_limit =feature.get_bucket_min(histogram.value(split_point.left_point + 1));
 
   // When left_point is NAN, it represents missing value. In this case, we set left_point to
   // be the minimum feature value - 1e-3.
-  split->mutable_float_split()->set_threshold(
-      isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
-      (left_limit + right_limit) / 2.0);
+  float threshold = isnan(left_limit) ? feature.get_bucket_min(1) - 1e-3 :
+      (left_limit + right_limit) / 2.0;
+  if (threshold <= left_limit) {
+    // There is no float between the limits, or the middle is rounded down.
+    threshold = right_limit;
+  }
+  split->mutable_float_split()->set_threshold(threshold);
   return true;
 }
 
-- 
2.43.0


From 415fe41c31e5ccb6b04b3903b682d1559044f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:45 +0000
Subject: [PATCH 09/30] fix: split search leaves out buckets only if both
 gradient and hessian are zero

---
 src/gbdt_algo/split_algo.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gbdt_algo/split_algo.cc b/src/gbdt_algo/split_algo.cc
index 682b768..22d8d0c 100644
--- a/src/gbdt_algo/split_algo.cc
+++ b/src/gbdt_algo/split_algo.cc
@@ -116,7 +116,7 @@ void Histogram::ComputeHistograms(const IntegerizedColumn& feature,
   }
 
   for (uint i = 0; i < max_int; ++i) {
-    if (histograms_[i].g != 0 && histograms_[i].h != 0) {
+    if (histograms_[i].g != 0 || histograms_[i].h != 0) {
       non_zero_values_.push_back(i);
     }
   }
@@ -160,12 +160,20 @@ bool FindBestSplitPoint(const IntegerizedColumn& feature,
   double lambda = config.l2_lambda();
   double total_energy = total.Energy(lambda);
 
+  // The hessians of the points from i on. They are not computed as total - left, since that may
+  // leave a tiny hessian of rounding errors where there is none.
+  vector<double> right_h(histogram.size() + 1);
+  for (int i = histogram.size() - 1; i >= 0; --i) {
+    right_h[i] = histogram.data(i).h + right_h[i + 1];
+  }
+
   GradientData left;
   GradientData right;
   // Scanning to find the best splitting point.
   for (int i = 0; i < histogram.size(); left += histogram.data(i), ++i) {
     if (i == 0) continue;
     right = total - left;
+    right.h = right_h[i];
     double gain = 0.0;
     bool missing_on_right = false;
     // By default we place missing on the left.
-- 
2.43.0


From 994ea301b17de690ecaa70e8ac99c0ebc9206c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 10/30] fix: report score files that cannot be written
 completely

---
 src/gbdt_algo/evaluation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index 451ac8e..f12201b 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -51,7 +51,7 @@ bool WriteScoreFile(const string& filename,
   }
 
   out_file.close();
-  return true;
+  return !out_file.fail();
 }
 
 Status EvaluateForest(DataStore* data_store,
-- 
2.43.0


From a642000d658f3ff7bfd5af82e82b71bb964c7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 11/30] fix: write the score files of all test points also if
 they are unsorted

---
 src/gbdt_algo/evaluation.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index f12201b..d0c07f8 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -58,7 +58,10 @@ Status EvaluateForest(DataStore* data_store,
                       const Forest& forest,
                       const list<int>& test_points_arg,
                       const string& output_dir) {
+  // The test points are reached in increasing order, starting from 1.
   auto test_points = test_points_arg;
+  test_points.remove_if([](int test_point) { return test_point < 1; });
+  test_points.sort();
   auto feature_names = CollectAllFeatures(forest);
   auto status = LoadFeatures(feature_names, data_store, nullptr);
   if (!status.ok()) return status;
-- 
2.43.0


From a9e55e7fd57e01c641a047d7b347759cfaac80d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:31 +0000
Subject: [PATCH 12/30] fix: logloss of large margins must not overflow to NaN

---
 src/loss_func/loss_func_math.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_math.cc b/src/loss_func/loss_func_math.cc
index 878465f..a046a37 100644
--- a/src/loss_func/loss_func_math.cc
+++ b/src/loss_func/loss_func_math.cc
@@ -26,8 +26,12 @@ tuple<double, double, double> ComputeMSE(double y, double f) {
 }
 
 tuple<double, double, double> ComputeLogLoss(double y, double f) {
-  double e = exp(-y * f);
-  return make_tuple(log(1 + e), y * e / (1 + e), e / ((1 + e) * (1 + e)));
+  // exp(-|y * f|) cannot overflow, whatever the margin.
+  double margin = y * f;
+  double e = exp(-fabs(margin));
+  double loss = log1p(e) + (margin < 0 ? -margin : 0);
+  double p = (margin < 0 ? 1 : e) / (1 + e);
+  return make_tuple(loss, y * p, e / ((1 + e) * (1 + e)));
 };
 
 tuple<double, double, double> ComputeHuberizedHinge(double y, double f) {
-- 
2.43.0


From 85aab6861266d5ed51eb1e7760d624770931d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 13/30] fix: pairwise losses leave out rows without a group and
 data without pairs

---
 src/loss_func/loss_func_pairwise.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 3b63cdf..8ad2b7b 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -40,6 +40,8 @@ double ComputePairSamplingProbability(int num_rows, double pair_sampling_rate,
   for (const auto& group : groups) {
     num_total_pairs += group.num_pairs();
   }
+  // Without pairs, e.g. when all targets are the same, there is nothing to sample.
+  if (num_total_pairs == 0) return 0;
   return pair_sampling_rate * num_rows / num_total_pairs / 2.0;
 }
 
@@ -73,6 +75,8 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     const auto& group_col = group_column->col();
     for (int i = 0; i < group_column->size(); ++i) {
       uint group_id = group_col[i];
+      // Rows whose group is missing (index 0) can't be compared with any other.
+      if (group_id == 0) continue;
       groups[group_id - 1].emplace_back(i);
     }
   }
@@ -153,7 +157,8 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   double loss = std::accumulate(losses.begin(), losses.end(), 0.0);
   double weight_sum = std::accumulate(weight_sums.begin(), weight_sums.end(), 0.0);
 
-  loss /= weight_sum;
+  // weight_sum is zero when no pair was sampled.
+  if (weight_sum > 0) loss /= weight_sum;
   if (progress) {
     *progress = PrepareProgressMessage(loss);
   }
-- 
2.43.0


From f528c85b80724dba4af7a4ddca81d95944a69baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:54 +0000
Subject: [PATCH 14/30] fix: size the table of precomputed discounts before
 filling it

---
 src/loss_func/loss_func_lambdamart.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loss_func/loss_func_lambdamart.cc b/src/loss_func/loss_func_lambdamart.cc
index c37406a..994f077 100644
--- a/src/loss_func/loss_func_lambdamart.cc
+++ b/src/loss_func/loss_func_lambdamart.cc
@@ -40,7 +40,7 @@ LambdaMART::LambdaMART(const Config& config)
   if (config.lambdamart_dcg_base() > 0) {
     dcg_base_ = config.lambdamart_dcg_base();
   }
-  precomputed_discounts_.reserve(kNumPrecomputedDiscounts);
+  precomputed_discounts_.resize(kNumPrecomputedDiscounts);
   for (int i = 0; i < kNumPrecomputedDiscounts; ++i) {
     precomputed_discounts_[i] = discount(i, dcg_base_);
   }
-- 
2.43.0


From 06b203639be2ac57a90122280c5657e9c2aace67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 15/30] fix: no random generator shared by the threads that
 sample pairs

---
 src/loss_func/loss_func_pairwise.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 8ad2b7b..29c8e74 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -114,11 +114,17 @@ void Pairwise::ComputeFunctionalGradientsAndHessians(const vector<double>& f,
   // Sample pairs and compute pairwise loss.
   vector<double> losses(slices_.size(), 0.0);
   vector<double> weight_sums(slices_.size(), 0.0);
+  // Each slice samples from a generator of its own. A shared one would be a data race and would
+  // make the result depend on how the threads are scheduled.
+  vector<std::mt19937> generators;
+  for (int j = 0; j < slices_.size(); ++j) {
+    generators.emplace_back((*Subsampling::get_generator())());
+  }
   {
     ThreadPool pool(FLAGS_num_threads);
     for (int j = 0; j < slices_.size(); ++j) {
-      pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j]]() {
-          std::mt19937* generator = Subsampling::get_generator();
+      pool.Enqueue([&, this, &slice=slices_[j], &loss=losses[j], &weight_sum=weight_sums[j],
+                    generator=&generators[j]]() {
           for (int group_index = slice.first; group_index < slice.second; ++group_index) {
             auto& group = groups_[group_index];
             if (rerank_) group.Rerank(f);
-- 
2.43.0


From e2983c8878c1801589655575d1f2571580c26998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:26 +0000
Subject: [PATCH 16/30] fix: training with a group column the data does not
 have returns an error instead of aborting

---
 src/gbdt_algo/gbdt_algo.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 526a0f7..7a270bb 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -139,6 +139,10 @@ Status TrainGBDT(DataStore* data_store,
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
 
+  if (!config.group_column().empty() && !data_store->GetStringColumn(config.group_column())) {
+    return Status(error::NOT_FOUND,
+                  fmt::format("Failed to find group column {0} in data_store.", config.group_column()));
+  }
   status = loss_func->Init(data_store->num_rows(), w, y, GetGroupOrDie(config, data_store));
   if (!status.ok()) return status;
 
-- 
2.43.0


From 876d31cec1cb2864e7a7d2142ae8db00aa8c541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 17/30] fix: a base forest with a feature the data does not
 have is refused instead of aborting

---
 src/gbdt_algo/gbdt_algo.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index 7a270bb..bd49bfb 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -138,6 +138,10 @@ Status TrainGBDT(DataStore* data_store,
   vector<const Column*> features;
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
+  if (base_forest) {
+    status = LoadFeatures(CollectAllFeatures(*base_forest), data_store, nullptr);
+    if (!status.ok()) return status;
+  }
 
   if (!config.group_column().empty() && !data_store->GetStringColumn(config.group_column())) {
     return Status(error::NOT_FOUND,
-- 
2.43.0


From c9f1f922333a88eba988a3b4f6fc340c5150d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 18/30] fix: sampling rates that are not a number are refused

---
 src/gbdt_algo/utils.cc              | 8 ++++----
 src/loss_func/loss_func_pairwise.cc | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index ac723ce..7efd9c0 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -212,14 +212,14 @@ Status CheckConfig(Config config) {
                   fmt::format("num_leaves should be positive (actual {0})",
                               config.num_leaves()));
   }
-  if (config.example_sampling_rate() <= 0 ||
-      config.example_sampling_rate() > 1) {
+  if (!(config.example_sampling_rate() > 0 &&
+        config.example_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("example_sampling_rate should be in [0, 1] (actual {0})",
                               config.example_sampling_rate()));
   }
-  if (config.feature_sampling_rate() <= 0 ||
-      config.feature_sampling_rate() > 1) {
+  if (!(config.feature_sampling_rate() > 0 &&
+        config.feature_sampling_rate() <= 1)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("feature_sampling_rate should be in [0, 1] (actual {0})",
                               config.feature_sampling_rate()));
diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 29c8e74..877e02e 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -59,7 +59,7 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
   w_ = w;
   y_ = y;
 
-  if (pair_sampling_rate_ <= 0) {
+  if (!(pair_sampling_rate_ > 0)) {
     return Status(error::INVALID_ARGUMENT,
                   fmt::format("pair_sampling_rate need to by positive (actual {0})", pair_sampling_rate_));
   }
-- 
2.43.0


From 08d0e2b1b0790c5cbf6fc6d016872edd42783346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:37 +0000
Subject: [PATCH 19/30] fix: a file that cannot be written completely is an
 error

---
 src/utils/utils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/utils.cc b/src/utils/utils.cc
index e70eefb..2438730 100644
--- a/src/utils/utils.cc
+++ b/src/utils/utils.cc
@@ -44,6 +44,7 @@ void WriteStringToFile(const string& content, const string& file) {
   CHECK(!out.fail()) << "Failed to open " << file << " for writing.";
   out << content;
   out.close();
+  CHECK(!out.fail()) << "Failed to write " << file << ".";
 }
 
 vector<uint> VectorSliceToVector(VectorSlice<uint> slice) {
-- 
2.43.0


From be4e76315032e77f9c077f860d973c4b88d73cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 20/30] fix: raise a Python exception for every status that is
 not OK

---
 src/python/gbdt_py_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/gbdt_py_base.cc b/src/python/gbdt_py_base.cc
index 47e5b1a..ee7accd 100644
--- a/src/python/gbdt_py_base.cc
+++ b/src/python/gbdt_py_base.cc
@@ -17,5 +17,7 @@ void ThrowException(const Status& status) {
       throw std::logic_error(status.ToString());
     case error::OK:
       return;
+    default:
+      throw std::runtime_error(status.ToString());
   }
 }
-- 
2.43.0


From 6ca983615b5cf5250a7820256e47f98193edbb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 21/30] fix: refuse to train or predict on an empty Python data
 store instead of crashing

---
 src/python/forest_py.cc     | 3 +++
 src/python/train_gbdt_py.cc | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/forest_py.cc b/src/python/forest_py.cc
index 9f566b4..d95586d 100644
--- a/src/python/forest_py.cc
+++ b/src/python/forest_py.cc
@@ -57,6 +57,9 @@ vector<double> ForestPy::Predict(DataStorePy* data_store_py) const {
 void ForestPy::PredictAndOutput(DataStorePy* data_store_py,
                                 const list<int>& test_points,
                                 const string& output_dir) const {
+  if (!data_store_py || !data_store_py->data_store()) {
+    ThrowException(Status(error::NOT_FOUND, "Data store is empty."));
+  }
   auto status = EvaluateForest(data_store_py->data_store(),
                                forest_,
                                test_points,
diff --git a/src/python/train_gbdt_py.cc b/src/python/train_gbdt_py.cc
index 98ffa34..497820b 100644
--- a/src/python/train_gbdt_py.cc
+++ b/src/python/train_gbdt_py.cc
@@ -51,7 +51,7 @@ ForestPy TrainPy(DataStorePy* data_store,
   Config config;
   auto status = JsonUtils::FromJson(json_config, &config);
   if (!status.ok()) ThrowException(status);
-  if (!data_store) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
+  if (!data_store || !data_store->data_store()) ThrowException(Status(error::NOT_FOUND, "Datastore cannot be empty."));
 
   if (!y.empty() && data_store->num_rows() != y.size()) {
     ThrowException(Status(error::INVALID_ARGUMENT,
-- 
2.43.0


From 4614adb65b5745c8f0cd4dd4a5dfb952613e326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 22/30] fix: keep a column that Python holds alive when its
 data store drops it

---
 src/data_store/column.h          |  2 +-
 src/data_store/data_store.cc     |  2 +-
 src/data_store/data_store.h      |  2 +-
 src/data_store/tsv_data_store.cc |  4 ++--
 src/python/column_py.h           | 16 +++++++++++++---
 5 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/data_store/column.h b/src/data_store/column.h
index 4627be2..816bd58 100644
--- a/src/data_store/column.h
+++ b/src/data_store/column.h
@@ -29,7 +29,7 @@
 
 namespace gbdt {
 
-class Column {
+class Column : public std::enable_shared_from_this<Column> {
  public:
   enum ColumnType {
     kStringColumn = 0,
diff --git a/src/data_store/data_store.cc b/src/data_store/data_store.cc
index 4d829f6..4d9ba38 100644
--- a/src/data_store/data_store.cc
+++ b/src/data_store/data_store.cc
@@ -72,7 +72,7 @@ uint DataStore::num_cols() const {
   return column_map_.size();
 }
 
-uint CountColumn(const unordered_map<string, unique_ptr<Column>>& column_map,
+uint CountColumn(const unordered_map<string, std::shared_ptr<Column>>& column_map,
                  Column::ColumnType type) {
   int count = 0;
   for (const auto& p : column_map) {
diff --git a/src/data_store/data_store.h b/src/data_store/data_store.h
index 08a6b79..fdaa224 100644
--- a/src/data_store/data_store.h
+++ b/src/data_store/data_store.h
@@ -49,7 +49,7 @@ public:
   }
 
 protected:
-  unordered_map<string, unique_ptr<Column>> column_map_;
+  unordered_map<string, std::shared_ptr<Column>> column_map_;
   Status status_;
 };
 
diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 5cd18f1..777ed0a 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -41,7 +41,7 @@ string ReadFirstLine(const string& tsv) {
   return ReadLine(in);
 }
 
-Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& column_map) {
+Status MaybeFindFirstNotOK(const unordered_map<string, std::shared_ptr<Column>>& column_map) {
   for (const auto&p : column_map) {
     if (!p.second->status().ok()) {
       return p.second->status();
@@ -52,7 +52,7 @@ Status MaybeFindFirstNotOK(const unordered_map<string, unique_ptr<Column>>& colu
 
 // Checks whether the column is to be created. A column that is named more than once is loaded
 // only once, and all of its roles have to agree on its type.
-Status CheckDuplicate(const unordered_map<string, unique_ptr<Column>>& column_map,
+Status CheckDuplicate(const unordered_map<string, std::shared_ptr<Column>>& column_map,
                       const string& header, Column::ColumnType type, bool* exists) {
   auto it = column_map.find(header);
   *exists = it != column_map.end();
diff --git a/src/python/column_py.h b/src/python/column_py.h
index 8f2f491..f20f45c 100644
--- a/src/python/column_py.h
+++ b/src/python/column_py.h
@@ -20,41 +20,51 @@
 #include "gbdt_py_base.h"
 #include "src/data_store/column.h"
 
+#include <memory>
 #include <utility>
 
 namespace gbdt {
 
 class StringColumnPy {
  public:
-  StringColumnPy(const StringColumn* column) : column_(column) {}
+  StringColumnPy(const StringColumn* column) :
+      owner_(column ? column->shared_from_this() : nullptr), column_(column) {}
   int size() const;
   const string name() const;
   const string& get(int i) const;
   const string Description() const;
  private:
+  // The column outlives its data store as long as it is used.
+  std::shared_ptr<const Column> owner_;
   const StringColumn* column_ = nullptr;
 };
 
 class RawFloatColumnPy {
  public:
-  RawFloatColumnPy(const RawFloatColumn* column) : column_(column) {}
+  RawFloatColumnPy(const RawFloatColumn* column) :
+      owner_(column ? column->shared_from_this() : nullptr), column_(column) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   const string Description() const;
  private:
+  // The column outlives its data store as long as it is used.
+  std::shared_ptr<const Column> owner_;
   const RawFloatColumn* column_ = nullptr;
 };
 
 class BucketizedFloatColumnPy {
  public:
-  BucketizedFloatColumnPy(const BucketizedFloatColumn* column) : column_(column) {}
+  BucketizedFloatColumnPy(const BucketizedFloatColumn* column) :
+      owner_(column ? column->shared_from_this() : nullptr), column_(column) {}
   int size() const;
   const string name() const;
   float get(int i) const;
   vector<pair<float, float>> GetBuckets() const;
   const string Description() const;
  private:
+  // The column outlives its data store as long as it is used.
+  std::shared_ptr<const Column> owner_;
   const BucketizedFloatColumn* column_ = nullptr;
 };
 
-- 
2.43.0


From b4104c5a76979085f15fe0d1c1ec4b68acf1599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 23/30] fix: load every column of a data frame, as the type the
 overrides ask for

---
 gbdt/_data_store.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/gbdt/_data_store.py b/gbdt/_data_store.py
index 1163358..0a8f5fb 100644
--- a/gbdt/_data_store.py
+++ b/gbdt/_data_store.py
@@ -153,18 +153,22 @@ class DataLoader:
             raise ImportError('Please install numpy and pandas.')
 
         d = libgbdt.DataStore()
-        raw_float_cols = set([k for k, v in type_overrides.items()
-                              if v == 'float' or v == 'raw_float'])
-        string_cols = set([k for k, v in type_overrides.items()
-                           if v == 'string'])
-
+        types = {}
         for col in df.select_dtypes(include=[numpy.number]).keys():
-            if col in raw_float_cols:
-                d.add_raw_float_col(col, list(df[col]))
-            elif col not in string_cols:
-                d.add_bucketized_float_col(col, list(df[col]))
-
+            types[col] = 'bucketized_float'
         for col in df.select_dtypes(exclude=[numpy.number]).keys():
-            d.add_string_col(col, list(df[col]))
+            types[col] = 'string'
+
+        for col in types:
+            col_type = type_overrides.get(col, types[col])
+            values = list(df[col])
+            if col_type == 'float' or col_type == 'raw_float':
+                d.add_raw_float_col(col, values)
+            elif col_type == 'bucketized_float':
+                d.add_bucketized_float_col(col, values)
+            elif col_type == 'string':
+                d.add_string_col(col, values if types[col] == 'string' else [str(v) for v in values])
+            else:
+                raise ValueError("Unknown type '{}' for column '{}'.".format(col_type, col))
 
         return DataStore(d)
-- 
2.43.0


From cf0659dd94a9ac9796a8ba9e1a14945614a28ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:15 +0000
Subject: [PATCH 24/30] fix: predict at checkpoints without reading files that
 other predictions wrote

---
 gbdt/_forest.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gbdt/_forest.py b/gbdt/_forest.py
index 12f259f..8cc906a 100644
--- a/gbdt/_forest.py
+++ b/gbdt/_forest.py
@@ -19,14 +19,22 @@ class Forest:
         """Computes prediction scores for data_store at different checkpoints. At each checkpoint n,
            We compute prediction scores for the sub forest from the first tree to nth tree.
         """
+        import shutil
         import tempfile
 
-        output_dir = tempfile.gettempdir()
+        # The score files are private to this call, and are read before anything else can happen.
+        output_dir = tempfile.mkdtemp()
+        try:
+            self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
+            scores = []
+            for p in checkpoints:
+                with open(output_dir + '/forest.{}.score'.format(p)) as score_file:
+                    scores.append((p, [float(line) for line in score_file if line.strip()]))
+        finally:
+            shutil.rmtree(output_dir)
 
-        self._forest.predict_and_output(data_store._data_store, checkpoints, output_dir)
-        for p in checkpoints:
-            yield p, [float(line) for line in open(output_dir + '/forest.{}.score'.format(p))
-                      if line.strip()]
+        for p, s in scores:
+            yield p, s
 
     def feature_importance(self):
         """Outputs list of feature importances in descending order."""
-- 
2.43.0


From d3497ec5b92f139cb73fc240d26c94e3376124ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:20 +0000
Subject: [PATCH 25/30] fix: refuse a forest whose splits do not fit the
 columns instead of aborting

---
 src/gbdt_algo/evaluation.cc |  6 ++----
 src/gbdt_algo/gbdt_algo.cc  |  2 +-
 src/gbdt_algo/utils.cc      | 28 ++++++++++++++++++++++++++++
 src/gbdt_algo/utils.h       |  3 +++
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/gbdt_algo/evaluation.cc b/src/gbdt_algo/evaluation.cc
index d0c07f8..4bc15b8 100644
--- a/src/gbdt_algo/evaluation.cc
+++ b/src/gbdt_algo/evaluation.cc
@@ -62,8 +62,7 @@ Status EvaluateForest(DataStore* data_store,
   auto test_points = test_points_arg;
   test_points.remove_if([](int test_point) { return test_point < 1; });
   test_points.sort();
-  auto feature_names = CollectAllFeatures(forest);
-  auto status = LoadFeatures(feature_names, data_store, nullptr);
+  auto status = LoadForestFeatures(forest, data_store);
   if (!status.ok()) return status;
   mkdir(output_dir.c_str(), 0744);
 
@@ -92,8 +91,7 @@ Status EvaluateForest(DataStore* data_store,
 Status EvaluateForest(DataStore* data_store,
                       const Forest& forest,
                       vector<double>* scores) {
-  auto feature_names = CollectAllFeatures(forest);
-  auto status = LoadFeatures(feature_names, data_store, nullptr);
+  auto status = LoadForestFeatures(forest, data_store);
   if (!status.ok()) return status;
 
   ComputeTreeScores compute_tree_scores(data_store);
diff --git a/src/gbdt_algo/gbdt_algo.cc b/src/gbdt_algo/gbdt_algo.cc
index bd49bfb..ec640cc 100644
--- a/src/gbdt_algo/gbdt_algo.cc
+++ b/src/gbdt_algo/gbdt_algo.cc
@@ -139,7 +139,7 @@ Status TrainGBDT(DataStore* data_store,
   status = LoadFeatures(feature_names, data_store, &features);
   if (!status.ok()) return status;
   if (base_forest) {
-    status = LoadFeatures(CollectAllFeatures(*base_forest), data_store, nullptr);
+    status = LoadForestFeatures(*base_forest, data_store);
     if (!status.ok()) return status;
   }
 
diff --git a/src/gbdt_algo/utils.cc b/src/gbdt_algo/utils.cc
index 7efd9c0..4b20192 100644
--- a/src/gbdt_algo/utils.cc
+++ b/src/gbdt_algo/utils.cc
@@ -127,6 +127,34 @@ unordered_set<string> CollectAllFeatures(const Forest& forest) {
   return feature_names;
 }
 
+Status CheckSplitTypes(const TreeNode& node, DataStore* data_store) {
+  if (!node.has_left_child()) return Status::OK;
+
+  const auto& split = node.split();
+  const auto* feature = data_store->GetColumn(split.feature());
+  if (feature == nullptr) {
+    return Status(error::NOT_FOUND, fmt::format("Failed to load feature {0} from data_store.", split.feature()));
+  }
+  bool has_right_type =
+      (feature->type() == Column::kStringColumn && split.has_cat_split()) ||
+      (feature->type() == Column::kBucketizedFloatColumn && split.has_float_split());
+  if (!has_right_type) {
+    return Status(error::INVALID_ARGUMENT,
+                  fmt::format("Split and feature type mismatch for {0}.", split.feature()));
+  }
+
+  auto status = CheckSplitTypes(node.left_child(), data_store);
+  return status.ok() ? CheckSplitTypes(node.right_child(), data_store) : status;
+}
+
+Status LoadForestFeatures(const Forest& forest, DataStore* data_store) {
+  auto status = LoadFeatures(CollectAllFeatures(forest), data_store, nullptr);
+  for (int i = 0; i < forest.tree_size() && status.ok(); ++i) {
+    status = CheckSplitTypes(forest.tree(i), data_store);
+  }
+  return status;
+}
+
 bool IsSingleNodeTree(const TreeNode& tree) {
   return !tree.has_left_child();
 }
diff --git a/src/gbdt_algo/utils.h b/src/gbdt_algo/utils.h
index 26b424a..f937aeb 100644
--- a/src/gbdt_algo/utils.h
+++ b/src/gbdt_algo/utils.h
@@ -40,6 +40,9 @@ Status LoadFeatures(const unordered_set<string>& feature_names,
 vector<pair<string, double>> ComputeFeatureImportance(const Forest& forest);
 unordered_set<string> CollectAllFeatures(const Forest& forest);
 
+// Loads all features of the forest and checks that each split fits the type of its feature.
+Status LoadForestFeatures(const Forest& forest, DataStore* data_store);
+
 bool IsSingleNodeTree(const TreeNode& tree);
 
 list<int> GetTestPoints(const Config& config, int forest_size);
-- 
2.43.0


From 03f12cf45c4baa63a4c174d3b2a486095a55919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 26/30] fix: do not put an empty bucket before the largest
 float

---
 src/data_store/column.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_store/column.cc b/src/data_store/column.cc
index 82382cf..e4c29f6 100644
--- a/src/data_store/column.cc
+++ b/src/data_store/column.cc
@@ -290,7 +290,10 @@ void BucketizedFloatColumn::BuildBuckets() {
   uint left_over_capacity = max(1, left_over / left_over_buckets);
   UniformBinning(histograms, left_over_capacity, &bucket_maxs_);
   sort(bucket_maxs_.begin() + 1, bucket_maxs_.end());
-  bucket_maxs_.push_back(numeric_limits<float>::max());
+  // The last bucket is open. It must not be repeated, as the first of the two would be empty.
+  if (bucket_maxs_.back() != numeric_limits<float>::max()) {
+    bucket_maxs_.push_back(numeric_limits<float>::max());
+  }
 
   for (int i = 1; i < bucket_maxs_.size(); ++i) {
     bucket_map_[bucket_maxs_[i]] = i;
-- 
2.43.0


From 342ba5a1449067ad62926226460a7d833a77e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:00 +0000
Subject: [PATCH 27/30] fix: release the remaining TSV blocks when one cannot
 be loaded

---
 src/data_store/tsv_data_store.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 777ed0a..4e5115d 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -82,18 +82,19 @@ Status TSVDataStore::LoadTSVs(const vector<string>& tsvs, const Config& config)
     return status;
   }
 
-  vector<promise<TSVBlock*>> blocks(tsvs.size());
+  vector<promise<unique_ptr<TSVBlock>>> blocks(tsvs.size());
   ThreadPool pool(FLAGS_num_threads);
   for (int i = 0; i < tsvs.size(); ++i) {
     pool.Enqueue([this, &block=blocks[i], tsv=tsvs[i], skip_header=(i==0)] {
-        block.set_value(new TSVBlock(tsv, float_column_indices_, string_column_indices_, skip_header));
+        block.set_value(unique_ptr<TSVBlock>(
+            new TSVBlock(tsv, float_column_indices_, string_column_indices_, skip_header)));
       });
   }
 
   for (int i = 0; i < blocks.size(); ++i) {
     auto block_future = blocks[i].get_future();
     block_future.wait();
-    unique_ptr<TSVBlock> block(block_future.get());
+    unique_ptr<TSVBlock> block = block_future.get();
     if (!block->status().ok()) {
       return block->status();
     }
-- 
2.43.0


From 4a2eee8cd373320379dfe051d791cf964f473327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:15 +0000
Subject: [PATCH 28/30] fix: a loss function can be initialized for another
 training

---
 src/loss_func/loss_func_pairwise.cc  | 3 +++
 src/loss_func/loss_func_pointwise.cc | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/loss_func/loss_func_pairwise.cc b/src/loss_func/loss_func_pairwise.cc
index 877e02e..e8a0658 100644
--- a/src/loss_func/loss_func_pairwise.cc
+++ b/src/loss_func/loss_func_pairwise.cc
@@ -81,6 +81,9 @@ Status Pairwise::Init(int num_rows, FloatVector w, FloatVector y, const StringCo
     }
   }
 
+  // The loss function may have been initialized for another training.
+  groups_.clear();
+  initial_loss_ = -1;
   groups_.reserve(groups.size());
   for (auto& group : groups) {
     groups_.emplace_back(std::move(group), y);
diff --git a/src/loss_func/loss_func_pointwise.cc b/src/loss_func/loss_func_pointwise.cc
index d92b24f..cac2e93 100644
--- a/src/loss_func/loss_func_pointwise.cc
+++ b/src/loss_func/loss_func_pointwise.cc
@@ -41,6 +41,7 @@ Status Pointwise::Init(int num_rows, FloatVector w, FloatVector y, const StringC
   w_ = w;
   y_ = y;
   weight_sum_ = 0;
+  initial_loss_ = -1;
   for (int i = 0; i < num_rows; ++i) {
     weight_sum_ += w(i);
   }
-- 
2.43.0


From cd6b4fd11568640d7eb8c84765f40523127b1c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:03 +0000
Subject: [PATCH 29/30] fix: a flat file that cannot be read to its end is not
 a column

---
 src/data_store/flatfiles_data_store.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_store/flatfiles_data_store.cc b/src/data_store/flatfiles_data_store.cc
index 341bb21..0bda80f 100644
--- a/src/data_store/flatfiles_data_store.cc
+++ b/src/data_store/flatfiles_data_store.cc
@@ -68,6 +68,10 @@ bool FlatfilesDataStore::LoadColumn(const string& column_name) {
     return false;
   }
 
+  if (in.bad()) {
+    LOG(ERROR) << "Failed to read " << flatfile << ".";
+    return false;
+  }
   if (column == nullptr) {
     LOG(ERROR) << "Failed to create the column.";
     return false;
-- 
2.43.0


From f6ee0f83659bdb6fa83b41e6105436ff84785564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:07 +0000
Subject: [PATCH 30/30] fix: a TSV header that is read in part is an error

---
 src/data_store/tsv_data_store.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/data_store/tsv_data_store.cc b/src/data_store/tsv_data_store.cc
index 4e5115d..80cca9a 100644
--- a/src/data_store/tsv_data_store.cc
+++ b/src/data_store/tsv_data_store.cc
@@ -36,9 +36,11 @@ namespace gbdt {
 
 namespace {
 
-string ReadFirstLine(const string& tsv) {
+Status ReadFirstLine(const string& tsv, string* line) {
   std::ifstream in(tsv);
-  return ReadLine(in);
+  *line = ReadLine(in);
+  // A header that is read in part must not be taken for the whole.
+  return in.bad() ? Status(error::UNKNOWN, fmt::format("Failed to read TSV {0}.", tsv)) : Status::OK;
 }
 
 Status MaybeFindFirstNotOK(const unordered_map<string, std::shared_ptr<Column>>& column_map) {
@@ -150,7 +152,10 @@ Status TSVDataStore::SetupColumns(const string& first_tsv, const Config& config)
   if (!FileExists(first_tsv)) {
     return Status(error::NOT_FOUND, fmt::format("TSV {0} does not exit.", first_tsv));
   }
-  vector<string> headers = strings::split(ReadFirstLine(first_tsv), "\t");
+  string first_line;
+  Status status = ReadFirstLine(first_tsv, &first_line);
+  if (!status.ok()) return status;
+  vector<string> headers = strings::split(first_line, "\t");
 
   unordered_map<string, int> map_from_header_to_index;
   for (int i = 0; i < headers.size(); ++i) {
-- 
2.43.0

