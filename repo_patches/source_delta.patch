From 4372c29a8065c99967956e16e6ad68daaea0889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 01/18] fix: bit packer truncates values of narrow words and
 clears full-width fields

---
 src/vt/utils/bits/bits_packer.impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vt/utils/bits/bits_packer.impl.h b/src/vt/utils/bits/bits_packer.impl.h
index 7329336..6294917 100644
--- a/src/vt/utils/bits/bits_packer.impl.h
+++ b/src/vt/utils/bits/bits_packer.impl.h
@@ -50,7 +50,8 @@
 
 namespace vt { namespace utils {
 
-#define gen_bit_mask(len) ((static_cast<uint64_t>(1) << (len)) - 1)
+#define gen_bit_mask(len) \
+  ((len) < 64 ? (static_cast<uint64_t>(1) << ((len) & 63)) - 1 : ~uint64_t{0})
 
 using FieldType = BitPacker::FieldType;
 
@@ -123,7 +124,9 @@ BitPacker::setFieldDynamic(
   auto const nbits = (sizeof(BitField) * 8) - len;
   field = field & ~(gen_bit_mask(len) << start);
   auto seg = bit_cast<UnsignedBitField>(static_cast<BitField>(segment));
-  UnsignedBitField bits = ((seg << nbits) >> nbits) << start;
+  // Truncate explicitly, narrow types are promoted to int when shifted
+  auto const upper = static_cast<UnsignedBitField>(seg << nbits);
+  UnsignedBitField bits = (upper >> nbits) << start;
   field = field | bit_cast<BitField>( bits );
 }
 
-- 
2.43.0


From 0c9fcf321d1943fbdedf83ee34e1cf0aac98e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 02/18] fix: interval set: clear resets the count, copies own
 their hint, zero is a valid bound

---
 src/vt/termination/interval/integral_set.h | 23 +++++++++++++++++++---
 src/vt/termination/interval/interval.h     |  3 +--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/vt/termination/interval/integral_set.h b/src/vt/termination/interval/integral_set.h
index ff76a61..d8c5517 100644
--- a/src/vt/termination/interval/integral_set.h
+++ b/src/vt/termination/interval/integral_set.h
@@ -79,9 +79,25 @@ struct IntegralSetBase {
   using PositionType        = typename IntervalType::PositionEnum;
 
   IntegralSetBase() : hint_(set_.end()) { }
-  IntegralSetBase(IntegralSetBase const&) = default;
-  IntegralSetBase(IntegralSetBase&&) = default;
-  IntegralSetBase& operator=(IntegralSetBase const&) = default;
+  // The hint refers to a node of one particular set, it is never copied/moved
+  IntegralSetBase(IntegralSetBase const& in)
+    : lb_(in.lb_), ub_(in.ub_), set_(in.set_), hint_(set_.end()),
+      elms_(in.elms_)
+  { }
+  IntegralSetBase(IntegralSetBase&& in)
+    : lb_(in.lb_), ub_(in.ub_), set_(std::move(in.set_)), hint_(set_.end()),
+      elms_(in.elms_)
+  {
+    in.clear();
+  }
+  IntegralSetBase& operator=(IntegralSetBase const& in) {
+    lb_ = in.lb_;
+    ub_ = in.ub_;
+    set_ = in.set_;
+    hint_ = set_.end();
+    elms_ = in.elms_;
+    return *this;
+  }
 
   explicit IntegralSetBase(DomainT base)
     : lb_(base),
@@ -229,6 +245,7 @@ struct IntegralSetBase {
   void clear() {
     set_.clear();
     lb_ = ub_ = 0;
+    elms_ = 0;
     hint_ = set_.end();
   }
 
diff --git a/src/vt/termination/interval/interval.h b/src/vt/termination/interval/interval.h
index 6d3dd12..f4121f1 100644
--- a/src/vt/termination/interval/interval.h
+++ b/src/vt/termination/interval/interval.h
@@ -78,8 +78,7 @@ public:
 
   DomainT get(std::size_t i) const {
     auto const val = lb_ + static_cast<DomainT>(i);
-    vtAssert(lb_ not_eq sentinel, "Lower bound must be valid");
-    vtAssert(ub_ not_eq sentinel, "Upper bound must be valid");
+    vtAssert(valid(),             "Interval must be valid");
     vtAssert(val <= ub_,          "Must be in interval range");
     return val;
   }
-- 
2.43.0


From 1c19f5d962a70b96a8f9567076e9eac0fce9e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 03/18] fix: unbounded default map sends negative indices to a
 negative rank

---
 src/vt/topos/mapping/dense/unbounded_default.impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/topos/mapping/dense/unbounded_default.impl.h b/src/vt/topos/mapping/dense/unbounded_default.impl.h
index ce9423e..62a1ab3 100644
--- a/src/vt/topos/mapping/dense/unbounded_default.impl.h
+++ b/src/vt/topos/mapping/dense/unbounded_default.impl.h
@@ -54,7 +54,8 @@ NodeType UnboundedDefaultMap<IdxT>::map(IdxT* idx, int ndim, NodeType num_nodes)
   for (int i = 0; i < ndim; i++) {
     val ^= idx->get(i);
   }
-  return val % num_nodes;
+  // a negative remainder is not a rank
+  return static_cast<uint64_t>(val) % num_nodes;
 }
 
 template <typename IdxT>
-- 
2.43.0


From dd19a5420c341502f170530cb07b3073a1f8e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 04/18] fix: epoch window spins forever when the next epoch is
 still in use

---
 src/vt/epoch/epoch_window.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vt/epoch/epoch_window.cc b/src/vt/epoch/epoch_window.cc
index cefa98a..6f8d96a 100644
--- a/src/vt/epoch/epoch_window.cc
+++ b/src/vt/epoch/epoch_window.cc
@@ -110,9 +110,11 @@ EpochType EpochWindow::allocateNewEpoch() {
   // be allocated
   do {
     EpochType next = EpochType{*next_epoch_};
-    if (terminated_epochs_.contains(next)) {
-      (*next_epoch_)++;
 
+    // Advance even when this epoch is still in use, so the search moves past it
+    (*next_epoch_)++;
+
+    if (terminated_epochs_.contains(next)) {
       // Tell the system the epoch is now active
       activateEpoch(next);
       return next;
-- 
2.43.0


From 66e81267179bd4e331a57dce20d7bc576bed9bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 05/18] fix: growing an allocation counts the spare bytes twice

---
 src/vt/pool/pool.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vt/pool/pool.cc b/src/vt/pool/pool.cc
index 97b45b3..d1cd42f 100644
--- a/src/vt/pool/pool.cc
+++ b/src/vt/pool/pool.cc
@@ -45,6 +45,7 @@
 #include "vt/pool/pool.h"
 #include "vt/pool/static_sized/memory_pool_equal.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <cstdint>
 #include <cassert>
@@ -230,6 +231,9 @@ Pool::tryGrowAllocation(std::byte* buf, size_t grow_amount) {
     return false;
 
   auto *header = reinterpret_cast<Header*>(HeaderManagerType::getHeaderPtr(buf));
+  // the growth takes up the spare bytes first, so that the recorded total never
+  // exceeds the block (nor changes which pool the block is returned to)
+  header->oversize -= std::min<size_t>(header->oversize, grow_amount);
   header->alloc_size += grow_amount;
   return true;
 }
-- 
2.43.0


From a2ba59bf7a37bd181ece8cf5a973efd9dc32fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 06/18] fix: assigning a message pointer to itself or from an
 empty one

---
 src/vt/messaging/message/smart_ptr.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vt/messaging/message/smart_ptr.h b/src/vt/messaging/message/smart_ptr.h
index 47118e1..7c01109 100644
--- a/src/vt/messaging/message/smart_ptr.h
+++ b/src/vt/messaging/message/smart_ptr.h
@@ -127,14 +127,18 @@ struct MsgSharedPtr final {
   }
 
   MsgSharedPtr<T>& operator=(MsgSharedPtr<T> const& in) {
+    // Reference the new message before releasing the old one: they may be the
+    // same, and the old one may own \c in
+    MsgSharedPtr<T> tmp{in};
     clear();
-    init(in.get(), in.impl_);
+    moveFrom(std::move(tmp));
     return *this;
   }
 
   MsgSharedPtr<T>& operator=(MsgSharedPtr<T>&& in) {
+    MsgSharedPtr<T> tmp{std::move(in)};
     clear();
-    moveFrom(std::move(in));
+    moveFrom(std::move(tmp));
     return *this;
   }
 
-- 
2.43.0


From 3208dd096d4fd18071a3b0acce8dae19f57ce3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:03 +0000
Subject: [PATCH 07/18] fix: strided group ranges: size, membership and split
 agree with the listed ranks; unsorted shallow list copies

---
 src/vt/group/region/group_range.cc        | 6 +++---
 src/vt/group/region/group_shallow_list.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vt/group/region/group_range.cc b/src/vt/group/region/group_range.cc
index e237868..a0bd82c 100644
--- a/src/vt/group/region/group_range.cc
+++ b/src/vt/group/region/group_range.cc
@@ -63,7 +63,7 @@ Range::Range(
 }
 
 /*virtual*/ Range::SizeType Range::getSize() const {
-  return (hi_ - lo_) / stride_;
+  return hi_ > lo_ ? (hi_ - lo_ + stride_ - 1) / stride_ : 0;
 }
 
 /*virtual*/ void Range::sort() {
@@ -76,7 +76,7 @@ Range::Range(
     // List must be sorted
     return std::binary_search(list_.begin(), list_.end(), node);
   } else {
-    return node >= lo_ && node < hi_ && node % stride_ == 0;
+    return node >= lo_ && node < hi_ && (node - lo_) % stride_ == 0;
   }
 }
 
@@ -114,7 +114,7 @@ Range::Range(Range const& in_other, BoundType in_remove_extent)
 
 /*virtual*/ Range::SplitRegionType Range::split() const {
   auto const& size = getSize();
-  auto const& span = (hi_ - lo_) / 2;
+  BoundType const span = (size / 2) * stride_;
   vtAssert(
     size >= 2, "Size must be at least 2 to split"
   );
diff --git a/src/vt/group/region/group_shallow_list.cc b/src/vt/group/region/group_shallow_list.cc
index a68b4a6..0e5f566 100644
--- a/src/vt/group/region/group_shallow_list.cc
+++ b/src/vt/group/region/group_shallow_list.cc
@@ -113,7 +113,7 @@ ShallowList::ShallowList(ListType const& in_list)
 }
 
 /*virtual*/ ShallowList::RegionUPtrType ShallowList::copy() const {
-  return std::make_unique<List>(bound_, size_, true);
+  return std::make_unique<List>(bound_, size_, false);
 }
 
 /*virtual*/ void ShallowList::splitN(int nsplits, ApplyFnType apply) const {
-- 
2.43.0


From c4291a26553d4a788f2674dc7ddb04a560ccfadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 08/18] fix: merging histograms keeps the incoming extremes;
 counting past the last centroid reads within bounds

---
 src/vt/utils/adt/histogram_approx.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vt/utils/adt/histogram_approx.h b/src/vt/utils/adt/histogram_approx.h
index 2e801ce..c7ce328 100644
--- a/src/vt/utils/adt/histogram_approx.h
+++ b/src/vt/utils/adt/histogram_approx.h
@@ -338,7 +338,7 @@ struct HistogramApprox {
     std::size_t k = it - cs_.begin();
 
     // \c std::lower_bound doesn't quite do what we need (when p == p_k)
-    if (cs_[k].getValue() == p) {
+    if (k < cs_.size() and cs_[k].getValue() == p) {
       k++;
     }
 
@@ -408,6 +408,9 @@ struct HistogramApprox {
     }
 
     // Pare the histogram down to the allowed size
+    // The centroids of the incoming histogram may lie inside its extremes
+    min_ = std::min(min_, in_hist.getMin());
+    max_ = std::max(max_, in_hist.getMax());
     pareToNewMaxCentroids(cur_max_centroids);
   }
 
-- 
2.43.0


From 38076433db60e7552eff4405b402eeb2ceab8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 09/18] fix: a time trigger that ran waits for the next
 progress call

Rounding can place the next time of a short period trigger before the
current time; pushing it back while the queue is being drained then
never ends.
---
 src/vt/timetrigger/time_trigger_manager.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/vt/timetrigger/time_trigger_manager.cc b/src/vt/timetrigger/time_trigger_manager.cc
index 14e5c73..5721e67 100644
--- a/src/vt/timetrigger/time_trigger_manager.cc
+++ b/src/vt/timetrigger/time_trigger_manager.cc
@@ -66,6 +66,10 @@ void TimeTriggerManager::removeTrigger(int id) {
 }
 
 void TimeTriggerManager::triggerReady(TimeType cur_time) {
+  // Triggers that ran rejoin the queue only afterwards: rounding can leave the
+  // next time of a short period trigger just before the current time
+  std::vector<Trigger> ran;
+
   while (not queue_.empty()) {
     if (queue_.top().ready(cur_time)) {
       auto t = queue_.top();
@@ -79,12 +83,16 @@ void TimeTriggerManager::triggerReady(TimeType cur_time) {
 
       queue_.pop();
       t.runAction(cur_time);
-      queue_.push(t);
+      ran.push_back(t);
     } else {
       // all other triggers will not be ready if this one isn't
       break;
     }
   }
+
+  for (auto&& t : ran) {
+    queue_.push(t);
+  }
 }
 
 int TimeTriggerManager::progress(TimeType current_time) {
-- 
2.43.0


From 7c875afe3dc0d225493069014d73bd9e8672fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 10/18] fix: returning to an earlier subphase drops the data of
 later ones

---
 src/vt/elm/elm_lb_data.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vt/elm/elm_lb_data.cc b/src/vt/elm/elm_lb_data.cc
index 4489e6b..d8b32ef 100644
--- a/src/vt/elm/elm_lb_data.cc
+++ b/src/vt/elm/elm_lb_data.cc
@@ -104,7 +104,9 @@ void ElementLBData::addReadOnlySharedID(
 
 void ElementLBData::sendComm(elm::CommKey key, double bytes) {
   phase_comm_[cur_phase_][key].sendMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
+  if (subphase_comm_[cur_phase_].size() <= cur_subphase_) {
+    subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
+  }
   subphase_comm_[cur_phase_].at(cur_subphase_)[key].sendMsg(bytes);
 }
 
@@ -112,7 +114,9 @@ void ElementLBData::recvComm(
   elm::CommKey key, double bytes
 ) {
   phase_comm_[cur_phase_][key].receiveMsg(bytes);
-  subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
+  if (subphase_comm_[cur_phase_].size() <= cur_subphase_) {
+    subphase_comm_[cur_phase_].resize(cur_subphase_ + 1);
+  }
   subphase_comm_[cur_phase_].at(cur_subphase_)[key].receiveMsg(bytes);
 }
 
@@ -143,7 +147,9 @@ void ElementLBData::recvToNode(
 void ElementLBData::addTime(LoadType const timeLoad) {
   phase_timings_[cur_phase_] += timeLoad;
 
-  subphase_timings_[cur_phase_].resize(cur_subphase_ + 1);
+  if (subphase_timings_[cur_phase_].size() <= cur_subphase_) {
+    subphase_timings_[cur_phase_].resize(cur_subphase_ + 1);
+  }
   subphase_timings_[cur_phase_].at(cur_subphase_) += timeLoad;
 
   vt_debug_print(
-- 
2.43.0


From d78878839a02c02d6b3cb7e949bf11d15481dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 11/18] fix: the last byte is lost when a decompressed chunk
 holds just one

---
 src/vt/utils/json/decompression_input_container.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/utils/json/decompression_input_container.cc b/src/vt/utils/json/decompression_input_container.cc
index 152c090..14f6ae1 100644
--- a/src/vt/utils/json/decompression_input_container.cc
+++ b/src/vt/utils/json/decompression_input_container.cc
@@ -62,7 +62,7 @@ bool DecompressionInputContainer::advance() const {
   if (cur_ + 1 == len_) {
     len_ = d_->read(output_buf_.get(), chunk_size_);
     cur_ = 0;
-    if (cur_ + 1 < len_) {
+    if (cur_ < len_) {
       return true;
     } else {
       return false;
-- 
2.43.0


From 59346e7fc5a14b88164d1ab6cf8e15c4ededd611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 12/18] fix: spec and LB files: reject zero moduli and trailing
 text, allow trailing blanks after LB arguments

---
 src/vt/utils/file_spec/spec.cc           | 17 +++++++++++++++--
 src/vt/vrt/collection/balance/read_lb.cc |  6 ++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/vt/utils/file_spec/spec.cc b/src/vt/utils/file_spec/spec.cc
index 119482a..55ca773 100644
--- a/src/vt/utils/file_spec/spec.cc
+++ b/src/vt/utils/file_spec/spec.cc
@@ -175,7 +175,7 @@ void FileSpec::parse() {
      *                                                ^
      * This offset must be positive or zero!
      */
-    if (std::isdigit(c)) {
+    if (std::isdigit(c) or static_cast<char>(c) == '-') {
       file >> phase_positive_offset;
       vtAbortIf(
         phase_positive_offset < 0,
@@ -188,7 +188,13 @@ void FileSpec::parse() {
       );
     }
 
-    eatWhitespace(file);
+    c = eatWhitespace(file);
+    vtAbortIf(
+      not file.eof() and static_cast<char>(c) != '\n',
+      fmt::format(
+        "Parsing file \"{}\" error: unexpected text at the end of a line", filename
+      )
+    );
 
     /*
      * Entry is complete; eat all the following newlines
@@ -233,6 +239,13 @@ void FileSpec::transferSpec(SpecMsg* msg) {
 void FileSpec::insertSpec(
   SpecIndex phase, SpecIndex neg, SpecIndex pos, bool is_mod, SpecMapType& map
 ) {
+  vtAbortIf(
+    is_mod and phase <= 0,
+    fmt::format(
+      "Parsing file \"{}\" error: mod phase must be positive",
+      type_ == FileSpecType::TRACE ? theConfig()->vt_trace_spec_file : theConfig()->vt_lb_spec_file
+    )
+  );
   vtAbortIf(
     map.find(phase) != map.end(),
     fmt::format(
diff --git a/src/vt/vrt/collection/balance/read_lb.cc b/src/vt/vrt/collection/balance/read_lb.cc
index efbf17d..b3e418e 100644
--- a/src/vt/vrt/collection/balance/read_lb.cc
+++ b/src/vt/vrt/collection/balance/read_lb.cc
@@ -164,6 +164,10 @@ int eatWhitespace(std::ifstream& file) {
     if (std::isdigit(c)) {
       file >> mod;
     }
+    vtAbortIf(
+      is_mod and mod == 0,
+      fmt::format("Parsing file \"{}\" error: modulus of zero", filename)
+    );
 
     c = eatWhitespace(file);
 
@@ -183,6 +187,8 @@ int eatWhitespace(std::ifstream& file) {
       std::string param;
       file >> param;
       params.push_back(param);
+      // Whitespace at the end of a line must not lead into the next line
+      eatWhitespace(file);
     }
 
     eatWhitespace(file);
-- 
2.43.0


From 31d099470b9f20d65618e29bfab71a0bf4864c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:38 +0000
Subject: [PATCH 13/18] fix: report the greatest sample of a gauge when all
 samples are negative

The maximum of a gauge started from zero instead of the lowest value of its
type, so a gauge that only saw negative values reported a maximum of zero.
Timers already start from the lowest value.
---
 src/vt/runtime/component/diagnostic.impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic.impl.h b/src/vt/runtime/component/diagnostic.impl.h
index fe0f08d..b0c91c4 100644
--- a/src/vt/runtime/component/diagnostic.impl.h
+++ b/src/vt/runtime/component/diagnostic.impl.h
@@ -78,7 +78,7 @@ meter::Gauge<T> Diagnostic::registerGaugeT(
   );
   auto max = registerDiagnostic<T>(
     key + " [max]", desc, DiagnosticUpdate::Max, unit,
-    DiagnosticTypeEnum::PerformanceDiagnostic, 0
+    DiagnosticTypeEnum::PerformanceDiagnostic, std::numeric_limits<T>::lowest()
   );
   auto avg = registerDiagnostic<T>(
     key + " [avg]", desc, DiagnosticUpdate::Avg, unit,
-- 
2.43.0


From e5401938155dd09fe866976911071ea71db6650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 14/18] fix: mean of a gauge with a negative sum

The sum (signed) was divided by the count (std::size_t), so a negative sum
was converted to a huge unsigned number first.
---
 src/vt/runtime/component/diagnostic_value.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index 5d6ec4c..0bb572b 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -52,6 +52,7 @@
 
 #include <string>
 #include <cmath>
+#include <type_traits>
 
 namespace vt { namespace runtime { namespace component { namespace detail {
 
@@ -236,8 +237,10 @@ struct DiagnosticValueWrapper {
    * the current value
    */
   T getComputedValue() const {
+    // divide in the value's own (signed) type, not in that of the count
+    using ScalarType = std::conditional_t<std::is_integral<T>::value, T, double>;
     if (N_ > 0) {
-      return value_ / N_;
+      return static_cast<T>(value_ / static_cast<ScalarType>(N_));
     } else {
       return value_;
     }
-- 
2.43.0


From 702a0a8c536cf22d6e18e4344029666b4b6554c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 15/18] fix: combine statistics of ranks that recorded nothing

Combining two contributions with no samples divided zero by zero and turned
the mean and moments of the whole reduction into NaN.
---
 src/vt/runtime/component/diagnostic_value.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vt/runtime/component/diagnostic_value.h b/src/vt/runtime/component/diagnostic_value.h
index 0bb572b..28d87c2 100644
--- a/src/vt/runtime/component/diagnostic_value.h
+++ b/src/vt/runtime/component/diagnostic_value.h
@@ -132,7 +132,8 @@ struct DiagnosticValueWrapper {
   ) {
     int32_t N            = d1.N_ + d2.N_;
     double delta         = d2.avg_ - d1.avg_;
-    double delta_sur_N   = delta / static_cast<double>(N);
+    // two ranks without any samples combine to one without any samples
+    double delta_sur_N   = N == 0 ? 0.0 : delta / static_cast<double>(N);
     double delta2_sur_N2 = delta_sur_N * delta_sur_N;
     int32_t n2           = d1.N_ * d1.N_;
     int32_t n_c2         = d2.N_ * d2.N_;
-- 
2.43.0


From 4ec726b1caeb11ffbb9d5ccb009b8b3c11649551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:22 +0000
Subject: [PATCH 16/18] fix: restore the surrounding element context when a
 collection element's work ends

---
 src/vt/context/runnable_context/collection.cc     |  4 ++--
 src/vt/context/runnable_context/collection.h      | 14 +++++++++++---
 src/vt/context/runnable_context/collection.impl.h | 13 +++++++++----
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/vt/context/runnable_context/collection.cc b/src/vt/context/runnable_context/collection.cc
index b2ae3f3..978fd52 100644
--- a/src/vt/context/runnable_context/collection.cc
+++ b/src/vt/context/runnable_context/collection.cc
@@ -46,11 +46,11 @@
 namespace vt { namespace ctx {
 
 void Collection::start() {
-  set_(elm_);
+  set_(elm_, *this);
 }
 
 void Collection::finish() {
-  clear_();
+  clear_(*this);
 }
 
 void Collection::suspend() {
diff --git a/src/vt/context/runnable_context/collection.h b/src/vt/context/runnable_context/collection.h
index 3328939..c57f5a4 100644
--- a/src/vt/context/runnable_context/collection.h
+++ b/src/vt/context/runnable_context/collection.h
@@ -44,6 +44,9 @@
 #if !defined INCLUDED_VT_CONTEXT_RUNNABLE_CONTEXT_COLLECTION_H
 #define INCLUDED_VT_CONTEXT_RUNNABLE_CONTEXT_COLLECTION_H
 
+#include "vt/configs/types/types_type.h"
+#include "vt/configs/types/types_sentinels.h"
+
 #include <functional>
 
 namespace vt { namespace vrt { namespace collection {
@@ -79,7 +82,8 @@ struct Collection {
   void start();
 
   /**
-   * \brief Remove the collection context
+   * \brief Remove the collection context, restoring the one that was in place
+   * before it was set
    */
   void finish();
 
@@ -87,8 +91,12 @@ struct Collection {
   void resume();
 
 private:
-  std::function<void(std::byte* in_elm)> set_;   /**< Set context function */
-  std::function<void()> clear_;             /**< Clear context function */
+  /** Set context function: saves the previous index and proxy */
+  std::function<void(std::byte* in_elm, Collection& ctx)> set_;
+  /** Restore the previous context function */
+  std::function<void(Collection& ctx)> clear_;
+  void const* prev_idx_ = nullptr;               /**< The previous index */
+  VirtualProxyType prev_proxy_ = no_vrt_proxy;   /**< The previous proxy */
   std::byte* elm_ = nullptr;                     /**< The element (untyped) */
 };
 
diff --git a/src/vt/context/runnable_context/collection.impl.h b/src/vt/context/runnable_context/collection.impl.h
index 6a756cc..fa73913 100644
--- a/src/vt/context/runnable_context/collection.impl.h
+++ b/src/vt/context/runnable_context/collection.impl.h
@@ -55,14 +55,19 @@ template <typename IndexT>
   vrt::collection::Indexable<IndexT>* elm
 ) {
   elm_ = reinterpret_cast<std::byte*>(elm);
-  set_ = [](std::byte* in_elm){
+  set_ = [](std::byte* in_elm, Collection& ctx){
+    using HolderType = vrt::collection::CollectionContextHolder<IndexT>;
     auto e = reinterpret_cast<vrt::collection::Indexable<IndexT>*>(in_elm);
     auto& idx_ = e->getIndex();
     auto proxy_ = e->getProxy();
-    vrt::collection::CollectionContextHolder<IndexT>::set(&idx_, proxy_);
+    ctx.prev_idx_ = HolderType::index();
+    ctx.prev_proxy_ = HolderType::proxy();
+    HolderType::set(&idx_, proxy_);
   };
-  clear_ = []{
-    vrt::collection::CollectionContextHolder<IndexT>::clear();
+  clear_ = [](Collection& ctx){
+    vrt::collection::CollectionContextHolder<IndexT>::set(
+      static_cast<IndexT const*>(ctx.prev_idx_), ctx.prev_proxy_
+    );
   };
 }
 
-- 
2.43.0


From a31c74a28fe9441cc38b067cd005aa303e58ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:22 +0000
Subject: [PATCH 17/18] fix: a moved-from EpochGuard no longer pops the epoch
 it gave away

---
 src/vt/termination/epoch_guard.cc | 15 +++++++++++++++
 src/vt/termination/epoch_guard.h  |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vt/termination/epoch_guard.cc b/src/vt/termination/epoch_guard.cc
index 83443d2..51ab8b7 100644
--- a/src/vt/termination/epoch_guard.cc
+++ b/src/vt/termination/epoch_guard.cc
@@ -49,6 +49,21 @@ EpochGuard::EpochGuard(EpochType ep) : guarded_epoch_(ep) {
   theMsg()->pushEpoch(guarded_epoch_);
 }
 
+EpochGuard::EpochGuard(EpochGuard&& other) noexcept
+  : guarded_epoch_(other.guarded_epoch_)
+{
+  other.guarded_epoch_ = no_epoch;
+}
+
+EpochGuard& EpochGuard::operator=(EpochGuard&& other) noexcept {
+  if (this != &other) {
+    pop();
+    guarded_epoch_ = other.guarded_epoch_;
+    other.guarded_epoch_ = no_epoch;
+  }
+  return *this;
+}
+
 EpochGuard::~EpochGuard() {
   pop();
 }
diff --git a/src/vt/termination/epoch_guard.h b/src/vt/termination/epoch_guard.h
index 2646441..8565fe7 100644
--- a/src/vt/termination/epoch_guard.h
+++ b/src/vt/termination/epoch_guard.h
@@ -74,7 +74,7 @@ public:
   explicit EpochGuard(EpochType ep);
 
   EpochGuard(const EpochGuard&) = delete;
-  EpochGuard(EpochGuard&&) noexcept = default;
+  EpochGuard(EpochGuard&& other) noexcept;
 
   /**
    * \brief Destroy the EpochGuard, popping the managed epoch.
@@ -82,7 +82,7 @@ public:
   ~EpochGuard();
 
   EpochGuard& operator=(const EpochGuard&) = delete;
-  EpochGuard& operator=(EpochGuard&&) noexcept = default;
+  EpochGuard& operator=(EpochGuard&& other) noexcept;
 
   /**
    * \brief Manually pop the managed epoch.
-- 
2.43.0


From 178bcba0e19e267be2040a9118901b2e5e94ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:48 +0000
Subject: [PATCH 18/18] fix: termination actions may add further actions while
 they run

---
 src/vt/termination/term_action.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/vt/termination/term_action.cc b/src/vt/termination/term_action.cc
index ce90145..2101ec3 100644
--- a/src/vt/termination/term_action.cc
+++ b/src/vt/termination/term_action.cc
@@ -133,14 +133,16 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // Detach the actions first: an action may add further ones
+      auto actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_actions_.erase(iter);
     }
   }
 
@@ -150,14 +152,16 @@ void TermAction::triggerAllEpochActions(
       iter != epoch_callable_actions_.end()) {
     if (auto iter2 = iter->second.find(encapsulated_epoch);
         iter2 != iter->second.end()) {
-      for (auto&& action : iter2->second) {
+      // Detach the actions first: an action may add further ones
+      auto actions = std::move(iter2->second);
+      iter->second.erase(iter2);
+      if (iter->second.size() == 0) {
+        epoch_callable_actions_.erase(iter);
+      }
+      for (auto&& action : actions) {
         theTerm()->consume(encapsulated_epoch);
         action->invoke();
       }
-      iter->second.erase(iter2);
-    }
-    if (iter->second.size() == 0) {
-      epoch_callable_actions_.erase(iter);
     }
   }
 }
-- 
2.43.0

