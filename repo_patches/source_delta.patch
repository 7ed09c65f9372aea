From 8f48315ecede9258bd0f85decb06ad19e37aa4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:37 +0000
Subject: [PATCH 01/18] fix: do not use a destroyed client when a quota
 response arrives late

---
 src/service_control_client_impl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 40aca93..cb2d410 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -138,17 +138,21 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
 
+  // The response may arrive after this object is gone, so the callback must
+  // not use "this": it holds a ref_count to quota_aggregator_ instead.
+  std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
   quota_transport_(*quota_request_copy, quota_response,
-                   [this, quota_request_copy, quota_response](Status status) {
+                   [quota_aggregator_copy, quota_request_copy,
+                    quota_response](Status status) {
                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: "
                                          << status.message();
                        // cache dummy response for fail open
                        AllocateQuotaResponse dummy_response;
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);
                      } else {
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, *quota_response);
                      }
 
-- 
2.43.0


From 9ad545aba833fc8206ab9b63c6ffda2b24b77b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:49 +0000
Subject: [PATCH 02/18] fix: quota cache recursed without end when it held more
 keys than its capacity

---
 src/quota_aggregator_impl.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 82a89ae..7924667 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -259,7 +259,10 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
 // OnCacheEntryDelete will be called behind the cache_mutex_
 // no need to consider locking at this point
 void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
-  if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
+  // An element evicted for lack of room cannot go back: inserting it would
+  // evict another one, and so on without end.
+  if (in_flush_all_ == false && ShouldDrop(*elem) == false &&
+      cache_->Size() < cache_->MaxSize()) {
     // insert the element back to the cache
     cache_->Insert(elem->signature(), elem, 1);
 
-- 
2.43.0


From 25c99ab66485be33a6dde4b02f7f189d3ec5ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:08 +0000
Subject: [PATCH 03/18] fix: send the tokens aggregated in a quota element that
 leaves the cache

---
 src/quota_aggregator_impl.cc | 6 ++++++
 src/quota_aggregator_impl.h  | 2 --
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 7924667..69df390 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -273,6 +273,12 @@ void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
         service_name_, service_config_id_));
     }
   } else {
+    // Send the tokens aggregated since the last refresh: they were granted
+    // to callers and would otherwise never reach the server.
+    if (elem->is_aggregated()) {
+      AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
+        service_name_, service_config_id_));
+    }
     delete elem;
   }
 }
diff --git a/src/quota_aggregator_impl.h b/src/quota_aggregator_impl.h
index 4b79602..e711563 100644
--- a/src/quota_aggregator_impl.h
+++ b/src/quota_aggregator_impl.h
@@ -43,8 +43,6 @@ typedef CacheRemovedItemsHandler<
 class QuotaAggregatorImpl : public QuotaAggregator,
                             public AllocateQuotaCacheRemovedItemsHandler {
  public:
-  // TODO(jaebong) when an element was expired and aggregated tokens are bigger
-  // than 0, aggregator needs to send a request inside the aggregator.
   QuotaAggregatorImpl(const std::string& service_name,
                       const std::string& service_config_id,
                       const QuotaAggregationOptions& options);
-- 
2.43.0


From b3e8d0817f7f4b4c6cd62857f564a8c4dca102cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:08 +0000
Subject: [PATCH 04/18] fix: deadlock when a response cached in a flush
 callback flushes another item

---
 src/cache_removed_items_handler.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 536558e..9ad00d1 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -59,7 +59,7 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    MutexLock lock(callback_mutex_);
+    std::lock_guard<std::recursive_mutex> lock(callback_mutex_);
     flush_callback_ = callback;
   }
 
@@ -119,8 +119,10 @@ class CacheRemovedItemsHandler {
   };
 
  private:
-  // Mutex guarding the access of flush_callback_;
-  Mutex callback_mutex_;
+  // Mutex guarding the access of flush_callback_. It is recursive since a flush
+  // callback whose transport completes in place may cache the response, which
+  // may remove other items and flush them out from the same thread.
+  std::recursive_mutex callback_mutex_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -130,7 +132,7 @@ class CacheRemovedItemsHandler {
   StackBuffer* stack_buffer_;
 
   void FlushOut(const RequestType& request) {
-    MutexLock lock(callback_mutex_);
+    std::lock_guard<std::recursive_mutex> lock(callback_mutex_);
     if (flush_callback_) {
       flush_callback_(request);
     }
-- 
2.43.0


From e39bbacd46092b5bfa3f42c218c42a12dc1b75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:08 +0000
Subject: [PATCH 05/18] fix: do not call an empty transport when flushing a
 client created without one

---
 src/service_control_client_impl.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index cb2d410..ee8e221 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -134,6 +134,14 @@ ServiceControlClientImpl::~ServiceControlClientImpl() {
 
 void ServiceControlClientImpl::AllocateQuotaFlushCallback(
     const AllocateQuotaRequest& quota_request) {
+  if (!quota_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport to send AllocateQuota request.";
+    // cache dummy response for fail open
+    (void)quota_aggregator_->CacheResponse(quota_request,
+                                           AllocateQuotaResponse());
+    return;
+  }
+
   AllocateQuotaRequest* quota_request_copy =
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
@@ -165,6 +173,11 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
 
 void ServiceControlClientImpl::CheckFlushCallback(
     const CheckRequest& check_request) {
+  if (!check_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport to flush Check request.";
+    return;
+  }
+
   CheckResponse* check_response = new CheckResponse;
   check_transport_(check_request, check_response,
                    [check_response](Status status) {
@@ -179,6 +192,11 @@ void ServiceControlClientImpl::CheckFlushCallback(
 
 void ServiceControlClientImpl::ReportFlushCallback(
     const ReportRequest& report_request) {
+  if (!report_transport_) {
+    GOOGLE_LOG(ERROR) << "No transport to flush Report request.";
+    return;
+  }
+
   ReportResponse* report_response = new ReportResponse;
   report_transport_(report_request, report_response,
                     [report_response](Status status) {
-- 
2.43.0


From f264f6a936ef2a2a1997467b5423ca68935a94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:08 +0000
Subject: [PATCH 06/18] fix: adding two amounts below one unit of money was
 reported as an overflow

---
 src/money_utils.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/money_utils.cc b/src/money_utils.cc
index c271e4f..1621878 100644
--- a/src/money_utils.cc
+++ b/src/money_utils.cc
@@ -79,9 +79,11 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
     sum_nanos += kBillion;
   }
 
-  // Calculate the sum of units.
-  int64_t sum_units_no_carry = a.units() + b.units();
-  int64_t sum_units = sum_units_no_carry + carry;
+  // Calculate the sum of units. It wraps around on overflow, detected below.
+  int64_t sum_units_no_carry = static_cast<int64_t>(
+      static_cast<uint64_t>(a.units()) + static_cast<uint64_t>(b.units()));
+  int64_t sum_units =
+      static_cast<int64_t>(static_cast<uint64_t>(sum_units_no_carry) + carry);
   // It's possible the sum_units and sum_nanos now have different signs,
   // for example a.units=-2, a.nanos=-7, b.units=5, b.nanos=3. Adjust if
   // necessary.
@@ -97,8 +99,9 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
   int sign_a = GetAmountSign(a);
   int sign_b = GetAmountSign(b);
 
-  // Detect positive overflow.
-  if (sign_a > 0 && sign_b > 0 && sum_units <= 0) {
+  // Detect positive overflow. The carry alone may overflow, so both sums are
+  // checked. Neither amount may have units, so a sum of 0 is no overflow.
+  if (sign_a > 0 && sign_b > 0 && (sum_units_no_carry < 0 || sum_units < 0)) {
     sum->set_units(INT64_MAX);
     sum->set_nanos(kBillion - 1);
     return Status(StatusCode::kOutOfRange, "Money addition positive overflow");
@@ -106,10 +109,9 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
   // Detect negative overflow. Note there is a tricky case that can only happen
   // to negative overflow: sum_units_no_carry overflows to 0 but adding the
   // carry makes sum_units a negative number again. So we must check both
-  // sum_units_no_carry and sum_units here. This doesn't happen in the
-  // positive overflow case because two MAX values 0x7FF...FF adds to
-  // 0xFF...FE and the carry won't affect the sign.
-  if (sign_a < 0 && sign_b < 0 && (sum_units_no_carry >= 0 || sum_units >= 0)) {
+  // sum_units_no_carry and sum_units here, unless neither amount has units.
+  if (sign_a < 0 && sign_b < 0 && (a.units() < 0 || b.units() < 0) &&
+      (sum_units_no_carry >= 0 || sum_units >= 0)) {
     sum->set_units(INT64_MIN);
     sum->set_nanos(-kBillion + 1);
     return Status(StatusCode::kOutOfRange, "Money addition negative overflow");
-- 
2.43.0


From e3b307464f3c81295e9d2d262b0fa74665921e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 07/18] fix: adding a sample to a distribution could use a
 bucket out of range

---
 utils/distribution_helper.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 193c530..6042da7 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -135,10 +135,13 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   const auto& exponential = distribution->exponential_buckets();
   int bucket_index = 0;
   if (value >= exponential.scale()) {
-    // Should be put into bucket bucket_index, starting from 0.
-    bucket_index = 1 + static_cast<int>(log2(value / exponential.scale()) /
-                                        log2(exponential.growth_factor()));
-    if (bucket_index > exponential.num_finite_buckets() + 1) {
+    // Should be put into bucket bucket_index, starting from 0. Compared as
+    // double, since it may be too large for an int.
+    double finite_bucket = log2(value / exponential.scale()) /
+                           log2(exponential.growth_factor());
+    if (finite_bucket < exponential.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(finite_bucket);
+    } else {
       bucket_index = exponential.num_finite_buckets() + 1;
     }
   }
@@ -158,7 +161,13 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
   } else if (value >= upper_bound) {
     bucket_index = linear.num_finite_buckets() + 1;
   } else {
-    bucket_index = 1 + static_cast<int>((value - lower_bound) / linear.width());
+    // Compared as double, since value - lower_bound may overflow.
+    double finite_bucket = (value - lower_bound) / linear.width();
+    if (finite_bucket < linear.num_finite_buckets()) {
+      bucket_index = 1 + static_cast<int>(finite_bucket);
+    } else {
+      bucket_index = linear.num_finite_buckets() + 1;
+    }
   }
 
   distribution->set_bucket_counts(
@@ -168,7 +177,7 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
 void UpdateExplicitBucketCount(double value, Distribution* distribution) {
   const auto& bounds = distribution->explicit_buckets().bounds();
   int bucket_index = 0;
-  if (value >= bounds.Get(0)) {
+  if (!bounds.empty() && value >= bounds.Get(0)) {
     // -inf <  b0 <  b1 <  b2 <  b3 < +inf     (4 values in "bounds")
     //   |  0  |  1  |  2  |  3  |  4  |       (5 buckets)
     // std::upper_bound returns the first value that is greater than given one.
-- 
2.43.0


From 8031063b86e61b35113ab23ce03ef6abe6ee165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:22 +0000
Subject: [PATCH 08/18] fix: adding up integer metric values could overflow,
 which is undefined

---
 src/operation_aggregator.cc       | 16 +++++++++++++++-
 src/quota_operation_aggregator.cc | 15 ++++++++++++++-
 utils/distribution_helper.cc      | 17 +++++++++++++++--
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/operation_aggregator.cc b/src/operation_aggregator.cc
index 73e13c0..d60f45f 100644
--- a/src/operation_aggregator.cc
+++ b/src/operation_aggregator.cc
@@ -19,6 +19,8 @@ limitations under the License.
 #include "utils/distribution_helper.h"
 #include "utils/stl_util.h"
 
+#include <limits>
+
 #include "google/protobuf/stubs/logging.h"
 
 using std::string;
@@ -55,6 +57,17 @@ void MergeCumulativeOrGaugeMetricValue(const MetricValue& from,
   *to = from;
 }
 
+// Adds two values. The sum saturates on overflow.
+int64_t SaturatedAdd(int64_t a, int64_t b) {
+  if (b > 0 && a > std::numeric_limits<int64_t>::max() - b) {
+    return std::numeric_limits<int64_t>::max();
+  }
+  if (b < 0 && a < std::numeric_limits<int64_t>::min() - b) {
+    return std::numeric_limits<int64_t>::min();
+  }
+  return a + b;
+}
+
 // Merges two metric values, with metric kind being Delta.
 //
 // Time [from_start, from_end] and [to_start, to_end] will be merged to time
@@ -86,7 +99,8 @@ void MergeDeltaMetricValue(const MetricValue& from, MetricValue* to) {
 
   switch (to->value_case()) {
     case MetricValue::kInt64Value:
-      to->set_int64_value(to->int64_value() + from.int64_value());
+      to->set_int64_value(
+          SaturatedAdd(to->int64_value(), from.int64_value()));
       break;
     case MetricValue::kDoubleValue:
       to->set_double_value(to->double_value() + from.double_value());
diff --git a/src/quota_operation_aggregator.cc b/src/quota_operation_aggregator.cc
index b1d0d9b..af6cd49 100644
--- a/src/quota_operation_aggregator.cc
+++ b/src/quota_operation_aggregator.cc
@@ -16,6 +16,7 @@ limitations under the License.
 #include "src/quota_operation_aggregator.h"
 
 #include <iostream>
+#include <limits>
 
 #include "src/money_utils.h"
 #include "src/signature.h"
@@ -40,6 +41,17 @@ bool TimestampBefore(const Timestamp& a, const Timestamp& b) {
          (a.seconds() == b.seconds() && a.nanos() < b.nanos());
 }
 
+// Adds two values. The sum saturates on overflow.
+int64_t SaturatedAdd(int64_t a, int64_t b) {
+  if (b > 0 && a > std::numeric_limits<int64_t>::max() - b) {
+    return std::numeric_limits<int64_t>::max();
+  }
+  if (b < 0 && a < std::numeric_limits<int64_t>::min() - b) {
+    return std::numeric_limits<int64_t>::min();
+  }
+  return a + b;
+}
+
 // Merges two metric values, with metric kind being Delta.
 //
 // For INT64, values will be added together,
@@ -67,7 +79,8 @@ void MergeDeltaMetricValue(const MetricValue& from, MetricValue* to) {
 
   switch (to->value_case()) {
     case MetricValue::kInt64Value:
-      to->set_int64_value(to->int64_value() + from.int64_value());
+      to->set_int64_value(
+          SaturatedAdd(to->int64_value(), from.int64_value()));
       break;
     default:
       GOOGLE_LOG(WARNING) << "Unknown metric kind for: " << to->DebugString();
diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 6042da7..c9b0831 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -18,6 +18,7 @@ limitations under the License.
 #include <algorithm>
 #include <cmath>
 #include <iterator>
+#include <limits>
 #include <sstream>
 
 using ::google::api::servicecontrol::v1::Distribution;
@@ -38,6 +39,17 @@ std::string StrCat(const char* str, T v) {
   return buffer.str();
 }
 
+// Adds two values. The sum saturates on overflow.
+int64_t SaturatedAdd(int64_t a, int64_t b) {
+  if (b > 0 && a > std::numeric_limits<int64_t>::max() - b) {
+    return std::numeric_limits<int64_t>::max();
+  }
+  if (b < 0 && a < std::numeric_limits<int64_t>::min() - b) {
+    return std::numeric_limits<int64_t>::min();
+  }
+  return a + b;
+}
+
 // Updates general statistics other than bucket count.
 void UpdateGeneralStatictics(double value, Distribution* distribution) {
   if (distribution->count() == 0) {
@@ -300,7 +312,7 @@ Status DistributionHelper::Merge(const Distribution& from, Distribution* to) {
   double mean = to->mean();
   double sum_of_squared_deviation = to->sum_of_squared_deviation();
 
-  to->set_count(to->count() + from.count());
+  to->set_count(SaturatedAdd(to->count(), from.count()));
   to->set_minimum(std::min(from.minimum(), to->minimum()));
   to->set_maximum(std::max(from.maximum(), to->maximum()));
   to->set_mean((count * mean + from.count() * from.mean()) / to->count());
@@ -310,7 +322,8 @@ Status DistributionHelper::Merge(const Distribution& from, Distribution* to) {
       from.count() * (to->mean() - from.mean()) * (to->mean() - from.mean()));
 
   for (int i = 0; i < from.bucket_counts_size(); i++) {
-    to->set_bucket_counts(i, to->bucket_counts(i) + from.bucket_counts(i));
+    to->set_bucket_counts(
+        i, SaturatedAdd(to->bucket_counts(i), from.bucket_counts(i)));
   }
   return OkStatus();
 }
-- 
2.43.0


From 9507194ad96ef4b100d128d710b1102ca5eae7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:22 +0000
Subject: [PATCH 09/18] fix: aggregating a quota metric without exactly one
 value read out of range

---
 src/quota_operation_aggregator.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/quota_operation_aggregator.cc b/src/quota_operation_aggregator.cc
index af6cd49..33aea4e 100644
--- a/src/quota_operation_aggregator.cc
+++ b/src/quota_operation_aggregator.cc
@@ -98,14 +98,14 @@ QuotaOperationAggregator::QuotaOperationAggregator(
 
 void QuotaOperationAggregator::MergeOperation(const QuotaOperation& operation) {
   for (const auto& metric_value_set : operation.quota_metrics()) {
-    GOOGLE_DCHECK(metric_value_set.metric_values_size() == 1);
-
-    auto found = metric_value_sets_.find(metric_value_set.metric_name());
-    if (found == metric_value_sets_.end()) {
-      metric_value_sets_[metric_value_set.metric_name()] =
-          metric_value_set.metric_values(0);
-    } else {
-      MergeDeltaMetricValue(metric_value_set.metric_values(0), &found->second);
+    // A set has one value as a rule, but callers may pass any number of them.
+    for (const auto& metric_value : metric_value_set.metric_values()) {
+      auto found = metric_value_sets_.find(metric_value_set.metric_name());
+      if (found == metric_value_sets_.end()) {
+        metric_value_sets_[metric_value_set.metric_name()] = metric_value;
+      } else {
+        MergeDeltaMetricValue(metric_value, &found->second);
+      }
     }
   }
 }
@@ -121,6 +121,13 @@ QuotaOperation QuotaOperationAggregator::ToOperationProto() const {
     *(set->add_metric_values()) = metric_values.second;
   }
 
+  // The metrics without any value still identify the operation.
+  for (const auto& metric_value_set : operation_.quota_metrics()) {
+    if (metric_value_sets_.count(metric_value_set.metric_name()) == 0) {
+      *(op.add_quota_metrics()) = metric_value_set;
+    }
+  }
+
   return op;
 }
 
-- 
2.43.0


From 56536447487fadd7e363c9140f821ebfd0136db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:41 +0000
Subject: [PATCH 10/18] fix: distributions with an infinite bucket bound were
 never merged

---
 utils/distribution_helper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index c9b0831..192cfb6 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -79,7 +79,8 @@ void UpdateGeneralStatictics(double value, Distribution* distribution) {
 
 inline bool IsCloseEnough(double x, double y) {
   const double epsilon = 1e-5;
-  return std::abs(x - y) <= epsilon * std::abs(x);
+  // Tested for equality first, since the difference of infinities is no number.
+  return x == y || std::abs(x - y) <= epsilon * std::abs(x);
 }
 
 // Checks whether the bucket definitions in the two distributions are
-- 
2.43.0


From 541e1d9f58be08330608113d00d4ba1658a4a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:13 +0000
Subject: [PATCH 11/18] fix: the largest check flush interval overflowed, which
 is undefined

---
 include/aggregation_options.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/aggregation_options.h b/include/aggregation_options.h
index 6ea1690..c433ebc 100644
--- a/include/aggregation_options.h
+++ b/include/aggregation_options.h
@@ -16,6 +16,7 @@ limitations under the License.
 #ifndef GOOGLE_SERVICE_CONTROL_CLIENT_AGGREGATOR_OPTIONS_H_
 #define GOOGLE_SERVICE_CONTROL_CLIENT_AGGREGATOR_OPTIONS_H_
 
+#include <limits>
 #include <memory>
 #include <unordered_map>
 #include "google/api/metric.pb.h"
@@ -77,8 +78,11 @@ struct CheckAggregationOptions {
                           int response_expiration_ms)
       : num_entries(cache_entries),
         flush_interval_ms(flush_cache_entry_interval_ms),
-        expiration_ms(std::max(flush_cache_entry_interval_ms + 1,
-                               response_expiration_ms)) {}
+        expiration_ms(
+            flush_cache_entry_interval_ms < std::numeric_limits<int>::max()
+                ? std::max(flush_cache_entry_interval_ms + 1,
+                           response_expiration_ms)
+                : flush_cache_entry_interval_ms) {}
 
   // Maximum number of cache entries kept in the aggregation cache.
   // Set to 0 will disable caching and aggregation.
-- 
2.43.0


From f0f12e21dc805e249511c5d4ae0e048c94c2e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:46 +0000
Subject: [PATCH 12/18] fix: a report was read after its callback, when its
 owner may have freed it

---
 src/service_control_client_impl.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index ee8e221..d55a8b4 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -361,9 +361,12 @@ void ServiceControlClientImpl::Report(const ReportRequest& report_request,
 
   Status status = report_aggregator_->Report(report_request);
   if (status.code() == StatusCode::kNotFound) {
+    // The caller may free report_request in on_report_done, which may be called
+    // before report_transport returns.
+    const int operations_size = report_request.operations_size();
     report_transport(report_request, report_response, on_report_done);
     ++send_reports_in_flight_;
-    send_report_operations_ += report_request.operations_size();
+    send_report_operations_ += operations_size;
     return;
   }
   on_report_done(status);
-- 
2.43.0


From 8ae75cae5a5df2c0c9a598ff82c1538f09c0dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 13/18] fix: a periodic timer was started though all caches are
 disabled

---
 src/service_control_client_impl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index d55a8b4..6d3a2ea 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -419,6 +419,9 @@ int ServiceControlClientImpl::GetNextFlushInterval() {
   int quota_interval = quota_aggregator_->GetNextFlushInterval();
   int report_interval = report_aggregator_->GetNextFlushInterval();
 
+  // Nothing to flush if all caches are disabled.
+  if (check_interval < 0 && quota_interval < 0 && report_interval < 0) return -1;
+
   check_interval =
       (check_interval < 0) ? std::numeric_limits<int>::max() : check_interval;
   quota_interval =
-- 
2.43.0


From afdf6fa971dc15c59a85800ee0cf8019ce6d8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 14/18] fix: the sample HTTP transport reported failed calls as
 successful

---
 sample/transport/http_transport.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index 6d4bed8..fb9c3e9 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -118,12 +118,15 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
   curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1L);
 
   CURLcode res = curl_easy_perform(curl);
-  Status status = OkStatus();
+  long http_code = 0;
+  curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
+  Status status = ConvertHttpCodeToStatus(http_code);
   if (res != CURLE_OK) {
     std::cout << "curl easy_perform() failed." << std::endl;
-    long http_code = 0;
-    curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-    Status status = ConvertHttpCodeToStatus(http_code);
+    if (status.ok()) {
+      // The transfer failed after its status line.
+      status = Status(StatusCode::kUnavailable, std::string("Transfer failed."));
+    }
   }
 
   curl_easy_cleanup(curl);
-- 
2.43.0


From 2489493263fdae5ec7363d6b941ba12a79d94859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 15/18] fix: the sample HTTP transport mapped all HTTP errors
 to the same codes

---
 sample/transport/http_transport.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index fb9c3e9..dacaecc 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -40,29 +40,40 @@ Status ConvertHttpCodeToStatus(const long &http_code) {
   switch (http_code) {
     case 400:
       status = Status(StatusCode::kInvalidArgument, std::string("Bad Request."));
+      break;
     case 403:
       status =
           Status(StatusCode::kPermissionDenied, std::string("Permission Denied."));
+      break;
     case 404:
       status = Status(StatusCode::kNotFound, std::string("Not Found."));
+      break;
     case 409:
       status = Status(StatusCode::kAborted, std::string("Conflict."));
+      break;
     case 416:
       status = Status(StatusCode::kOutOfRange,
                       std::string("Requested Range Not Satisfiable."));
+      break;
     case 429:
       status =
           Status(StatusCode::kResourceExhausted, std::string("Too Many Requests."));
+      break;
     case 499:
       status = Status(StatusCode::kCancelled, std::string("Client Closed Request."));
+      break;
     case 504:
       status = Status(StatusCode::kDeadlineExceeded, std::string("Gateway Timeout."));
+      break;
     case 501:
       status = Status(StatusCode::kUnimplemented, std::string("Not Implemented."));
+      break;
     case 503:
       status = Status(StatusCode::kUnavailable, std::string("Service Unavailable."));
+      break;
     case 401:
       status = Status(StatusCode::kUnauthenticated, std::string("Unauthorized."));
+      break;
     default: {
       if (http_code >= 200 && http_code < 300) {
         status = Status(StatusCode::kOk, std::string("OK."));
-- 
2.43.0


From 5a91995b9410480b28fb46a12384710a826142be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 16/18] fix: the sample HTTP transport cut requests at the
 first zero byte

---
 sample/transport/http_transport.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index dacaecc..a4c62d4 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -124,6 +124,9 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
                    "ALL:!aNULL:!LOW:!EXPORT:!SSLv2");
 
   curl_easy_setopt(curl, CURLOPT_POSTFIELDS, request_body.data());
+  // The body is binary: without its size it would end at the first zero byte.
+  curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE_LARGE,
+                   static_cast<curl_off_t>(request_body.size()));
   curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, ResultBodyCallback);
   curl_easy_setopt(curl, CURLOPT_WRITEDATA, response_body);
   curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1L);
-- 
2.43.0


From 71ee18b4397c6c8facf35e0e043aa9f35b8541fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:45 +0000
Subject: [PATCH 17/18] fix: the sample HTTP transport leaked the headers of
 each request

---
 sample/transport/http_transport.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sample/transport/http_transport.cc b/sample/transport/http_transport.cc
index a4c62d4..012d5cd 100644
--- a/sample/transport/http_transport.cc
+++ b/sample/transport/http_transport.cc
@@ -144,6 +144,7 @@ Status SendHttp(const std::string &url, const std::string &auth_header,
   }
 
   curl_easy_cleanup(curl);
+  curl_slist_free_all(list);
   return status;
 }
 
-- 
2.43.0


From 13e41528f5666539963c9692241cca88b140ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:52 +0000
Subject: [PATCH 18/18] fix: a quota aggregator dropped its entries early after
 FlushAll

in_flush_all_ was never reset, so entries cached after a FlushAll were
dropped at their refresh interval instead of at their expiration: a denied
key was granted again, and an allocation under way was asked for twice.
---
 src/quota_aggregator_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 69df390..36b2652 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -253,6 +253,10 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
     cache_->RemoveAll();
   }
 
+  // The aggregator may still be used: entries cached from now on are not to be
+  // dropped at their refresh interval.
+  in_flush_all_ = false;
+
   return OkStatus();
 }
 
-- 
2.43.0

