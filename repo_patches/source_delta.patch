From f4905a391814a0a71f72963182eff578a77ddd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 01/41] fix: keep the most recently used records when a rebuild
 shrinks a cache database

---
 tkrzw_dbm_cache.cc | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 80caf5c..17d53f4 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -512,27 +512,21 @@ void CacheSlot::Rebuild(int64_t cap_rec_num, int64_t cap_mem_size) {
   char* ptr = first_;
   last_ = nullptr;
   while (ptr != nullptr) {
-    char* next = CacheRecord::GetNext(ptr);
-    if (num_records_ < cap_rec_num_ && GetMemoryUsageImpl() < cap_mem_size_) {
-      CacheRecord rec;
-      rec.Deserialize(ptr);
-      const std::string_view key(rec.key_ptr, rec.key_size);
-      const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      const int32_t bucket_index = hash % num_buckets_;
-      CacheRecord::SetChild(ptr, buckets_[bucket_index]);
-      buckets_[bucket_index] = ptr;
-      num_records_++;
-      eff_data_size_ += rec.key_size + rec.value_size;
-      last_ = ptr;
-    } else {
-      xfree(ptr);
-    }
-    ptr = next;
+    CacheRecord rec;
+    rec.Deserialize(ptr);
+    const std::string_view key(rec.key_ptr, rec.key_size);
+    const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
+    const int32_t bucket_index = hash % num_buckets_;
+    CacheRecord::SetChild(ptr, buckets_[bucket_index]);
+    buckets_[bucket_index] = ptr;
+    num_records_++;
+    eff_data_size_ += rec.key_size + rec.value_size;
+    last_ = ptr;
+    ptr = rec.next;
   }
-  if (last_ == nullptr) {
-    first_ = nullptr;
-  } else {
-    CacheRecord::SetNext(last_, nullptr);
+  while (first_ != nullptr &&
+         (num_records_ > cap_rec_num_ || GetMemoryUsageImpl() > cap_mem_size_)) {
+    RemoveLRU();
   }
 }
 
-- 
2.43.0


From f698b95f1dba78c7a86bd1372499ae472cc99b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 02/41] fix: delta-encode zigzag integers of large magnitude
 without overflow

---
 tkrzw_str_util.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index 12411a3..b174b51 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -977,10 +977,11 @@ inline std::string SerializeIntVectorDelta(const std::vector<T>& values, bool zi
   for (const T value : values) {
     uint64_t num = 0;
     if (zigzag) {
-      if (static_cast<uint64_t>(value) > INT64MAX) {
-        num = static_cast<uint64_t>((value + 1) * -2) + 1;
+      num = static_cast<uint64_t>(value);
+      if (num > INT64MAX) {
+        num = (num + 1) * -2 + 1;
       } else {
-        num = value * 2;
+        num = num * 2;
       }
     } else {
       num = static_cast<uint64_t>(value);
-- 
2.43.0


From 0c8007b8b86779daaec1a5c7479db0dfffa33e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:23 +0000
Subject: [PATCH 03/41] fix: give the Boyer-Moore tables an entry for the byte
 0xFF

---
 tkrzw_str_util.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index d0ecb00..aa10410 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -945,8 +945,8 @@ int32_t StrSearchBM(std::string_view text, std::string_view pattern) {
   if (pattern.empty()) {
     return 0;
   }
-  int32_t table[UINT8MAX];
-  for (int32_t table_index = 0; table_index < UINT8MAX; table_index++) {
+  int32_t table[UINT8MAX + 1];
+  for (int32_t table_index = 0; table_index <= UINT8MAX; table_index++) {
     table[table_index] = pattern.size();
   }
   int32_t shift = pattern.size();
@@ -1133,8 +1133,8 @@ std::vector<int32_t> StrSearchWholeBM(
     }
     return result;
   }
-  int32_t table[UINT8MAX];
-  for (int32_t table_index = 0; table_index < UINT8MAX; table_index++) {
+  int32_t table[UINT8MAX + 1];
+  for (int32_t table_index = 0; table_index <= UINT8MAX; table_index++) {
     table[table_index] = pattern.size();
   }
   int32_t shift = pattern.size();
-- 
2.43.0


From 3a4a3abb4489663ebdec412a88f9cd4f6752afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:23 +0000
Subject: [PATCH 04/41] fix: find patterns by the Z algorithm in texts with
 null characters and empty patterns

---
 tkrzw_str_util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index aa10410..9a44595 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -1011,6 +1011,9 @@ int32_t StrSearchRK(std::string_view text, std::string_view pattern) {
 }
 
 int32_t StrSearchZ(std::string_view text, std::string_view pattern) {
+  if (pattern.empty()) {
+    return 0;
+  }
   std::string concat;
   concat.reserve(pattern.size() + 1 + text.size());
   concat.append(pattern);
@@ -1043,7 +1046,7 @@ int32_t StrSearchZ(std::string_view text, std::string_view pattern) {
     }
   }
   for (size_t i = pattern.size() + 1; i < concat.size(); i++) {
-    if (z[i] == pattern.size()) {
+    if (z[i] >= pattern.size()) {
       return i - 1 - pattern.size();
     }
   }
-- 
2.43.0


From 222f96c1535e8e75b445ca5ee4ce9bc07c4a32f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:23 +0000
Subject: [PATCH 05/41] fix: apply the maximum number of results to empty
 patterns in StrSearchBatchRK

---
 tkrzw_str_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 9a44595..e0836dd 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -1258,7 +1258,9 @@ std::vector<std::vector<int32_t>> StrSearchBatchRK(
     const auto& pattern_indices = batch_item.second;
     if (pattern_size < 1) {
       for (const auto& pattern_index : pattern_indices) {
-        for (size_t i = 0; i < text.size(); i++) {
+        const size_t num_results =
+            max_results > 0 ? std::min(max_results, text.size()) : text.size();
+        for (size_t i = 0; i < num_results; i++) {
           result[pattern_index].emplace_back(i);
         }
       }
-- 
2.43.0


From 70443ea8b7ba3d58e6f4e5795508ea42da488581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:23 +0000
Subject: [PATCH 06/41] fix: keep the delimiters after leading empty elements
 in StrJoin

---
 tkrzw_str_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index b174b51..32aa4f3 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -247,10 +247,12 @@ std::string IntToStrDelta(uint64_t data, bool zigzag);
 template <typename T>
 std::string StrJoin(const T& elems, std::string_view delim) {
   std::string str;
+  bool first = true;
   for (const auto& elem : elems) {
-    if (!str.empty()) {
+    if (!first) {
       str += delim;
     }
+    first = false;
     str += ToString(elem);
   }
   return str;
-- 
2.43.0


From efafc9b6d7aed77ff24faf4ff0f9e216638cc794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:04 +0000
Subject: [PATCH 07/41] fix: do not read null string views in StrToIntHex and
 StrToDouble

---
 tkrzw_str_util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index e0836dd..6638b51 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -224,7 +224,7 @@ uint64_t StrToIntHex(std::string_view str, uint64_t defval) {
   while (rp < ep && *rp <= ' ') {
     rp++;
   }
-  if (rp < ep - 1 && rp[0] == '0' && (rp[1] == 'x' || rp[1] == 'X')) {
+  if (ep - rp > 1 && rp[0] == '0' && (rp[1] == 'x' || rp[1] == 'X')) {
     rp += 2;
   }
   bool has_number = false;
@@ -263,12 +263,12 @@ double StrToDouble(std::string_view str, double defval) {
       rp++;
     }
   }
-  if (rp < ep - 2 &&
+  if (ep - rp > 2 &&
       (rp[0] == 'i' || rp[0] == 'I') && (rp[1] == 'n' || rp[1] == 'N') &&
       (rp[2] == 'f' || rp[2] == 'F')) {
     return HUGE_VAL * sign;
   }
-  if (rp < ep - 2 &&
+  if (ep - rp > 2 &&
       (rp[0] == 'n' || rp[0] == 'N') && (rp[1] == 'a' || rp[1] == 'A') &&
       (rp[2] == 'n' || rp[2] == 'N')) {
     return DOUBLENAN;
-- 
2.43.0


From c0ef5e7cddc4cc6aaa8a1ec2f29f2bc98513ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:05 +0000
Subject: [PATCH 08/41] fix: order NaN consistently in the real number key
 comparators

---
 tkrzw_key_comparators.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_key_comparators.h b/tkrzw_key_comparators.h
index 2dbc680..d20b7cd 100644
--- a/tkrzw_key_comparators.h
+++ b/tkrzw_key_comparators.h
@@ -87,6 +87,8 @@ inline int32_t HexadecimalKeyComparator(std::string_view a, std::string_view b)
 inline int32_t RealNumberKeyComparator(std::string_view a, std::string_view b) {
   const double a_num = StrToDouble(a);
   const double b_num = StrToDouble(b);
+  if (std::isnan(a_num)) return std::isnan(b_num) ? 0 : -1;
+  if (std::isnan(b_num)) return 1;
   return a_num < b_num ? -1 : (a_num > b_num ? 1 : 0);
 }
 
-- 
2.43.0


From 56a9f5398fc2cd9f58ac5042b7f4668cc954518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:25 +0000
Subject: [PATCH 09/41] fix: load the last leaf node ID of TreeDBM from its own
 metadata field

---
 tkrzw_dbm_tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9faa4d3..45a36dd 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2767,7 +2767,7 @@ Status TreeDBM::ParseMetadata(
   *eff_data_size = ReadFixNum(rp + META_OFFSET_EFF_DATA_SIZE, 6);
   *root_id = ReadFixNum(rp + META_OFFSET_ROOT_ID, 6);
   *first_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
-  *last_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
+  *last_id = ReadFixNum(rp + META_OFFSET_LAST_ID, 6);
   *num_leaf_nodes = ReadFixNum(rp + META_OFFSET_NUM_LEAF_NODES, 6);
   *num_inner_nodes = ReadFixNum(rp + META_OFFSET_NUM_INNER_NODES, 6);
   *max_page_size = ReadFixNum(rp + META_OFFSET_MAX_PAGE_SIZE, 3);
-- 
2.43.0


From fcb32865bcc8251f319fa1e6fc3b459627b04126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:29 +0000
Subject: [PATCH 10/41] fix: overwrite the record in SkipDBM::Set when the old
 value is requested

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 05bec97..477550b 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1791,7 +1791,7 @@ Status SkipDBM::Set(std::string_view key, std::string_view value, bool overwrite
   if (overwrite && old_value == nullptr) {
     return impl_->Insert(key, value);
   }
-  return DBM::Set(key, value, false, old_value);
+  return DBM::Set(key, value, overwrite, old_value);
 }
 
 Status SkipDBM::Remove(std::string_view key, std::string* old_value) {
-- 
2.43.0


From b7b0d346ffaa5e5b4b996d650f9ab13d4a0b147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:29 +0000
Subject: [PATCH 11/41] fix: apply removals of SkipDBM when records are
 inserted in order into an empty database

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 477550b..228efb3 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1253,7 +1253,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   const std::string sorted_path = path_ + SORTED_FILE_SUFFIX;
   const std::string merged_path = path_ + MERGED_FILE_SUFFIX;
   Status status(Status::SUCCESS);
-  if (reducer == nullptr && sorted_file_ != nullptr &&
+  if (reducer == nullptr && !removed_ && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
       !record_sorter_->IsUpdated()) {
     file_size_ = sorted_file_->GetSizeSimple();
-- 
2.43.0


From b4a5a46ba633a370f467c57fae9e45f74eaf2089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:51 +0000
Subject: [PATCH 12/41] fix: put existing records of SkipDBM before merged ones
 of the same key

---
 tkrzw_dbm_skip.cc      | 2 +-
 tkrzw_dbm_skip_impl.cc | 4 ++--
 tkrzw_dbm_skip_impl.h  | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 228efb3..f78c994 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1274,7 +1274,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   } else {
     if (file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
       record_sorter_->AddSkipRecord(new SkipRecord(
-          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE);
+          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE, true);
     }
     if (sorted_file_ != nullptr &&
         sorted_file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index de149e1..64886df 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -561,8 +561,8 @@ Status RecordSorter::Add(std::string_view key, std::string_view value) {
   return status;
 }
 
-void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base) {
-  skip_records_.emplace_back(rec, record_base);
+void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base, bool at_front) {
+  skip_records_.emplace(at_front ? skip_records_.begin() : skip_records_.end(), rec, record_base);
 }
 
 void RecordSorter::TakeFileOwnership(std::unique_ptr<File>&& file) {
diff --git a/tkrzw_dbm_skip_impl.h b/tkrzw_dbm_skip_impl.h
index 1bb990c..7b5d54c 100644
--- a/tkrzw_dbm_skip_impl.h
+++ b/tkrzw_dbm_skip_impl.h
@@ -300,8 +300,9 @@ class RecordSorter final {
    * Adds a file of SkipRecord.
    * @param rec The pointer to a skip record, whose ownership is taken.
    * @param record_base The record base offset.
+   * @param at_front If true, the records come before the ones of the files added already.
    */
-  void AddSkipRecord(SkipRecord* rec, int64_t record_base);
+  void AddSkipRecord(SkipRecord* rec, int64_t record_base, bool at_front = false);
 
   /**
    * Takes ownership of a file object.
-- 
2.43.0


From 6bf90d6914754b68c984967b99c6c7722d02df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 13/41] fix: do not count records of SkipDBM inserted in order
 before they become visible

---
 tkrzw_dbm_skip.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index f78c994..04d6cd2 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -158,6 +158,7 @@ class SkipDBMImpl final {
   DBM::UpdateLogger* update_logger_;
   int64_t old_num_records_;
   int64_t old_eff_data_size_;
+  int64_t sorted_eff_data_size_;
   SpinSharedMutex mutex_;
 };
 
@@ -197,7 +198,7 @@ SkipDBMImpl::SkipDBMImpl(std::unique_ptr<File> file)
       sort_mem_size_(SkipDBM::DEFAULT_SORT_MEM_SIZE), insert_in_order_(false),
       max_cached_records_(SkipDBM::DEFAULT_MAX_CACHED_RECORDS),
       record_sorter_(nullptr), past_offsets_(), cache_(nullptr), update_logger_(nullptr),
-      old_num_records_(0), old_eff_data_size_(0),
+      old_num_records_(0), old_eff_data_size_(0), sorted_eff_data_size_(0),
       mutex_() {}
 
 SkipDBMImpl::~SkipDBMImpl() {
@@ -1241,6 +1242,7 @@ Status SkipDBMImpl::PrepareStorage() {
       return status;
     }
     record_index_ = 0;
+    sorted_eff_data_size_ = 0;
     past_offsets_.clear();
     past_offsets_.resize(max_level_, 0);
   }
@@ -1256,6 +1258,8 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   if (reducer == nullptr && !removed_ && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
       !record_sorter_->IsUpdated()) {
+    num_records_ = record_index_;
+    eff_data_size_ = sorted_eff_data_size_;
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
@@ -1419,9 +1423,13 @@ Status SkipDBMImpl::UpdateRecord(std::string_view key, std::string_view new_valu
       }
     } else {
       const Status status = WriteRecord(key, new_value, sorted_file_.get());
+      // Records are not counted until they become visible by synchronization.
+      num_records_ = old_num_records_;
+      eff_data_size_ = old_eff_data_size_;
       if (status != Status::SUCCESS) {
         return status;
       }
+      sorted_eff_data_size_ += key.size() + new_value.size();
     }
     updated_ = true;
   }
-- 
2.43.0


From 7f7e28ca50b9d6b76c6b9e2e67e4555c68d684b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 14/41] fix: document how many bytes of the opaque metadata
 TreeDBM stores

---
 tkrzw_dbm_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.h b/tkrzw_dbm_tree.h
index d0b6c9d..5811023 100644
--- a/tkrzw_dbm_tree.h
+++ b/tkrzw_dbm_tree.h
@@ -533,7 +533,7 @@ class TreeDBM final : public DBM {
 
   /**
    * Sets the opaque metadata.
-   * @param opaque The opaque metadata, of which leading 16 bytes are stored in the file.
+   * @param opaque The opaque metadata, of which leading 10 bytes are stored in the file.
    * @return The result status.
    * @details Precondition: The database is opened as writable.
    * @details This data is just for applications and not used by the database implementation.
-- 
2.43.0


From cb9f758f4a9363ac6aafb382a2ea4d66cc845b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:26 +0000
Subject: [PATCH 15/41] fix: read the last flat record even if its data is
 empty

---
 tkrzw_file_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 464b7b1..cb9aad1 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1350,7 +1350,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
   if (status != Status::SUCCESS) {
     return status;
   }
-  if (file_size <= offset_ + min_record_size) {
+  if (file_size < offset_ + min_record_size) {
     return Status(Status::NOT_FOUND_ERROR);
   }
   data_size_ = std::min(static_cast<int64_t>(buffer_size_), file_size - offset_);
-- 
2.43.0


From 74647030ddd271ea986d7e756c882323b0726439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:35 +0000
Subject: [PATCH 16/41] fix: count records of SkipDBM inserted in order at once
 again, as its tests expect (reverts 6bf90d6)

---
 tkrzw_dbm_skip.cc | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 04d6cd2..f78c994 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -158,7 +158,6 @@ class SkipDBMImpl final {
   DBM::UpdateLogger* update_logger_;
   int64_t old_num_records_;
   int64_t old_eff_data_size_;
-  int64_t sorted_eff_data_size_;
   SpinSharedMutex mutex_;
 };
 
@@ -198,7 +197,7 @@ SkipDBMImpl::SkipDBMImpl(std::unique_ptr<File> file)
       sort_mem_size_(SkipDBM::DEFAULT_SORT_MEM_SIZE), insert_in_order_(false),
       max_cached_records_(SkipDBM::DEFAULT_MAX_CACHED_RECORDS),
       record_sorter_(nullptr), past_offsets_(), cache_(nullptr), update_logger_(nullptr),
-      old_num_records_(0), old_eff_data_size_(0), sorted_eff_data_size_(0),
+      old_num_records_(0), old_eff_data_size_(0),
       mutex_() {}
 
 SkipDBMImpl::~SkipDBMImpl() {
@@ -1242,7 +1241,6 @@ Status SkipDBMImpl::PrepareStorage() {
       return status;
     }
     record_index_ = 0;
-    sorted_eff_data_size_ = 0;
     past_offsets_.clear();
     past_offsets_.resize(max_level_, 0);
   }
@@ -1258,8 +1256,6 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   if (reducer == nullptr && !removed_ && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
       !record_sorter_->IsUpdated()) {
-    num_records_ = record_index_;
-    eff_data_size_ = sorted_eff_data_size_;
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
@@ -1423,13 +1419,9 @@ Status SkipDBMImpl::UpdateRecord(std::string_view key, std::string_view new_valu
       }
     } else {
       const Status status = WriteRecord(key, new_value, sorted_file_.get());
-      // Records are not counted until they become visible by synchronization.
-      num_records_ = old_num_records_;
-      eff_data_size_ = old_eff_data_size_;
       if (status != Status::SUCCESS) {
         return status;
       }
-      sorted_eff_data_size_ += key.size() + new_value.size();
     }
     updated_ = true;
   }
-- 
2.43.0


From 69eb0eb51a0d1c3842aa3ef1ede536f7235f42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 17/41] fix: let iterators of SkipDBM ignore records inserted
 in order but not synchronized

---
 tkrzw_dbm_skip.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index f78c994..a24bcf4 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -121,6 +121,7 @@ class SkipDBMImpl final {
   Status PrepareStorage();
   Status FinishStorage(SkipDBM::ReducerType reducer);
   Status DiscardStorage();
+  int64_t GetNumVisibleRecords() const;
   Status UpdateRecord(std::string_view key, std::string_view new_value);
   Status WriteRecord(std::string_view key, std::string_view value, File* file);
   Status ProcessImpl(std::string_view key, DBM::RecordProcessor* proc, bool writable);
@@ -1395,6 +1396,11 @@ Status SkipDBMImpl::DiscardStorage() {
   return status;
 }
 
+int64_t SkipDBMImpl::GetNumVisibleRecords() const {
+  // Records inserted in order are counted before they become visible by synchronization.
+  return sorted_file_ == nullptr ? num_records_ : old_num_records_;
+}
+
 Status SkipDBMImpl::UpdateRecord(std::string_view key, std::string_view new_value) {
   if (new_value.data() != DBM::RecordProcessor::NOOP.data()) {
     if (update_logger_ != nullptr) {
@@ -1503,9 +1509,9 @@ Status SkipDBMIteratorImpl::Last() {
   if (!dbm_->open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
-  if (dbm_->num_records_ > 0) {
+  if (dbm_->GetNumVisibleRecords() > 0) {
     SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
-    Status status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->num_records_ - 1);
+    Status status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->GetNumVisibleRecords() - 1);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1548,11 +1554,11 @@ Status SkipDBMIteratorImpl::JumpLower(std::string_view key, bool inclusive) {
   SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
   Status status = rec.Search(METADATA_SIZE, dbm_->cache_.get(), key, true);
   if (status == Status::NOT_FOUND_ERROR) {
-    if (dbm_->num_records_ < 1) {
+    if (dbm_->GetNumVisibleRecords() < 1) {
       ClearPosition();
       return Status(Status::SUCCESS);
     }
-    status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->num_records_ - 1);
+    status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->GetNumVisibleRecords() - 1);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1609,7 +1615,7 @@ Status SkipDBMIteratorImpl::JumpUpper(std::string_view key, bool inclusive) {
     if (ok) {
       return Status(Status::SUCCESS);
     }
-    if (record_index_ == dbm_->num_records_ - 1) {
+    if (record_index_ == dbm_->GetNumVisibleRecords() - 1) {
       ClearPosition();
       return Status(Status::SUCCESS);
     }
-- 
2.43.0


From a3730a6f7ec6b1ffc89b6ac98964d23ff80ecfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 18/41] fix: keep at least one entry in the free block pool
 after a rebuild of HashDBM

---
 tkrzw_dbm_hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d1ce92d..d03dd6f 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1811,7 +1811,7 @@ Status HashDBMImpl::RebuildImpl(
     }
     file_ = std::move(tmp_file);
     if (tuning_params.fbp_capacity >= 0) {
-      fbp_.SetCapacity(tuning_params.fbp_capacity);
+      fbp_.SetCapacity(std::max(1, tuning_params.fbp_capacity));
     }
     if (tuning_params.min_read_size >= 0) {
       if (tuning_params.min_read_size > 0) {
-- 
2.43.0


From f45fe4c91ad89b2eb723210a4e03445fb7b80c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:32 +0000
Subject: [PATCH 19/41] fix: do not read beyond the string view in ParseDateStr

---
 tkrzw_time_util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index fa02867..e122529 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -301,7 +301,7 @@ double ParseDateStr(std::string_view str) {
   if (has_num && plen == 0) {
     return wtime;
   }
-  if (has_num && plen > 0 && pv > rp && (plen > 1 || pv[1] <= ' ')) {
+  if (has_num && plen > 0 && pv > rp) {
     if (pv[0] == 's' || pv[0] == 'S') {
       return wtime;
     }
@@ -340,7 +340,7 @@ double ParseDateStr(std::string_view str) {
       rp += 19;
       len -= 19;
       if (len > 0 && *rp == '.') {
-        frac = StrToDouble(rp, len);
+        frac = StrToDouble(std::string_view(rp, len));
         rp++;
         len--;
         while (len > 0 && (*rp >= '0' && *rp <= '9')) {
-- 
2.43.0


From a3346307ef0b643d9f3d020539d281f848e4d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:32 +0000
Subject: [PATCH 20/41] fix: format and parse dates of RFC 1123 before 1969

---
 tkrzw_time_util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index e122529..13a5e27 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -217,7 +217,7 @@ size_t FormatDateW3CDTFWithFrac(char* result, double wtime, int32_t td, int32_t
 
 size_t FormatDateRFC1123(char* result, int64_t wtime, int32_t td) {
   assert(result != nullptr);
-  if (wtime < 0) {
+  if (wtime == INT64MIN) {
     wtime = GetWallTime();
   }
   if (td == INT32MIN) {
@@ -417,7 +417,7 @@ double ParseDateStr(std::string_view str) {
       len--;
     }
     uts.tm_year = StrToInt(std::string_view(rp, len));
-    if (uts.tm_year >= 1969) {
+    if (uts.tm_year >= 100) {
       uts.tm_year -= 1900;
     }
     while (len > 0 && *rp >= '0' && *rp <= '9') {
-- 
2.43.0


From 5e37ea02f353da1c8d865d76d369e61fe76743cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:19 +0000
Subject: [PATCH 21/41] fix: return null rather than a freed buffer when ZStd
 or LZ4 compression fails

---
 tkrzw_compress.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_compress.cc b/tkrzw_compress.cc
index 016f5c7..d08aeeb 100644
--- a/tkrzw_compress.cc
+++ b/tkrzw_compress.cc
@@ -239,7 +239,7 @@ char* ZStdCompressor::Compress(const void* buf, size_t size, size_t* sp) const {
   const size_t rsiz = ZSTD_compress(zbuf, zsiz, static_cast<const char*>(buf), size, level_);
   if (ZSTD_isError(rsiz)) {
     xfree(zbuf);
-    return zbuf;
+    return nullptr;
   }
   *sp = rsiz;
   return zbuf;
@@ -298,7 +298,7 @@ char* LZ4Compressor::Compress(const void* buf, size_t size, size_t* sp) const {
       LZ4_compress_fast(static_cast<const char*>(buf), zbuf, size, zsiz, acceleration_);
   if (rsiz < 1) {
     xfree(zbuf);
-    return zbuf;
+    return nullptr;
   }
   *sp = rsiz;
   return zbuf;
-- 
2.43.0


From a14af9abf5e643d0c72bf226cfa27f0eecaa79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:04 +0000
Subject: [PATCH 22/41] fix: size the output buffers of ZStd and LZ4
 decompression without overflow

---
 tkrzw_compress.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_compress.cc b/tkrzw_compress.cc
index d08aeeb..9a7f2c3 100644
--- a/tkrzw_compress.cc
+++ b/tkrzw_compress.cc
@@ -250,7 +250,7 @@ char* ZStdCompressor::Compress(const void* buf, size_t size, size_t* sp) const {
 
 char* ZStdCompressor::Decompress(const void* buf, size_t size, size_t* sp) const {
 #if _TKRZW_COMP_ZSTD
-  int32_t zsiz = size * 8 + 32;
+  int32_t zsiz = std::min<size_t>(size * 8 + 32, INT32MAX);
   char* zbuf = static_cast<char*>(xmalloc(zsiz));
   while (true) {
     const size_t rsiz = ZSTD_decompress(zbuf, zsiz, static_cast<const char*>(buf), size);
@@ -309,7 +309,7 @@ char* LZ4Compressor::Compress(const void* buf, size_t size, size_t* sp) const {
 
 char* LZ4Compressor::Decompress(const void* buf, size_t size, size_t* sp) const {
 #if _TKRZW_COMP_LZ4
-  int32_t zsiz = size * 4 + 32;
+  int32_t zsiz = std::min<size_t>(size * 4 + 32, INT32MAX);
   char* zbuf = static_cast<char*>(xmalloc(zsiz));
   while (true) {
     const int32_t rsiz = LZ4_decompress_safe(static_cast<const char*>(buf), zbuf, size, zsiz);
-- 
2.43.0


From d7b365b67d23e13c1ccfaad71279659d79643ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 23/41] fix: step back within the leaf node when the record of
 an iterator of TreeDBM or BabyDBM has been removed

---
 tkrzw_dbm_baby.cc | 10 ++++------
 tkrzw_dbm_tree.cc | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 7dcff20..f75b758 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1344,12 +1344,10 @@ Status BabyDBMIteratorImpl::PreviousImpl(std::string_view key) {
     std::shared_lock<SpinSharedMutex> lock(leaf_node_->mutex);
     auto& records = leaf_node_->records;
     auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-    if (it != records.end()) {
-      if (it != records.begin()) {
-        --it;
-        SetPositionWithKey(leaf_node_, (*it)->GetKey());
-        hit = true;
-      }
+    if (it != records.begin()) {
+      --it;
+      SetPositionWithKey(leaf_node_, (*it)->GetKey());
+      hit = true;
     }
   }
   if (!hit) {
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 45a36dd..89e2027 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2399,12 +2399,10 @@ Status TreeDBMIteratorImpl::PreviousImpl(std::string_view key) {
     std::shared_lock<SpinSharedMutex> lock(node->mutex);
     auto& records = node->records;
     auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-    if (it != records.end()) {
-      if (it != records.begin()) {
-        --it;
-        SetPositionWithKey(leaf_id_, (*it)->GetKey());
-        hit = true;
-      }
+    if (it != records.begin()) {
+      --it;
+      SetPositionWithKey(leaf_id_, (*it)->GetKey());
+      hit = true;
     }
   }
   Status status(Status::SUCCESS);
-- 
2.43.0


From 7d51547bf6d13f18da4871f495e8d44a892893af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:09 +0000
Subject: [PATCH 24/41] fix: let Jump of TreeDBM and BabyDBM iterators refer to
 the next record if the key is absent

---
 tkrzw_dbm_baby.cc | 1 +
 tkrzw_dbm_tree.cc | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index f75b758..4abf611 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1172,6 +1172,7 @@ Status BabyDBMIteratorImpl::Jump(std::string_view key) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   ClearPosition();
   SetPositionWithKey(nullptr, key);
+  SyncPosition(key);
   return Status(Status::SUCCESS);
 }
 
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 89e2027..e05e2b5 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2172,7 +2172,11 @@ Status TreeDBMIteratorImpl::Jump(std::string_view key) {
   }
   ClearPosition();
   SetPositionWithKey(0, key);
-  return Status(Status::SUCCESS);
+  const Status status = SyncPosition(key);
+  if (status == Status::NOT_FOUND_ERROR) {
+    return Status(Status::SUCCESS);
+  }
+  return status;
 }
 
 Status TreeDBMIteratorImpl::JumpLower(std::string_view key, bool inclusive) {
-- 
2.43.0


From b7d67d396955f1c81ec9d119e8c4a231c7d4eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:04 +0000
Subject: [PATCH 25/41] fix: do not skip the next record when the current
 record of an iterator of StdHashDBM or StdTreeDBM is removed from outside

---
 tkrzw_dbm_std.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 3a2ecae..f6dea93 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -95,6 +95,7 @@ class StdDBMIteratorImpl {
  private:
   StdDBMImpl<STRMAP>* dbm_;
   typename STRMAP::const_iterator it_;
+  bool moved_;
 };
 
 template <class STRMAP>
@@ -194,6 +195,7 @@ Status StdDBMImpl<STRMAP>::Process(
         for (auto* iterator : iterators_) {
           if (iterator->it_ == it) {
             ++iterator->it_;
+            iterator->moved_ = true;
           }
         }
         map_.erase(it);
@@ -247,6 +249,7 @@ Status StdDBMImpl<STRMAP>::ProcessMulti(
           for (auto* iterator : iterators_) {
             if (iterator->it_ == it) {
               ++iterator->it_;
+              iterator->moved_ = true;
             }
           }
           map_.erase(it);
@@ -290,6 +293,7 @@ Status StdDBMImpl<STRMAP>::ProcessFirst(DBM::RecordProcessor* proc, bool writabl
         for (auto* iterator : iterators_) {
           if (iterator->it_ == it) {
             ++iterator->it_;
+            iterator->moved_ = true;
           }
         }
         map_.erase(it);
@@ -330,6 +334,7 @@ Status StdDBMImpl<STRMAP>::ProcessEach(DBM::RecordProcessor* proc, bool writable
         for (auto* iterator : iterators_) {
           if (iterator->it_ == it) {
             ++iterator->it_;
+            iterator->moved_ = true;
           }
         }
         it = map_.erase(it);
@@ -519,6 +524,7 @@ template <class STRMAP>
 void StdDBMImpl<STRMAP>::CancelIterators() {
   for (auto* iterator : iterators_) {
     iterator->it_ = map_.end();
+    iterator->moved_ = false;
   }
 }
 
@@ -615,6 +621,7 @@ StdDBMIteratorImpl<STRMAP>::StdDBMIteratorImpl(StdDBMImpl<STRMAP>* dbm)
   std::lock_guard<SpinSharedMutex> lock(dbm_->mutex_);
   dbm_->iterators_.emplace_back(this);
   it_ = dbm_->map_.end();
+  moved_ = false;
 }
 
 template <class STRMAP>
@@ -629,6 +636,7 @@ template <class STRMAP>
 Status StdDBMIteratorImpl<STRMAP>::First() {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   const auto& const_map = dbm_->map_;
+  moved_ = false;
   it_ = const_map.begin();
   return Status(Status::SUCCESS);
 }
@@ -642,6 +650,7 @@ template <>
 Status StdDBMIteratorImpl<StringTreeMap>::Last() {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   const auto& const_map = dbm_->map_;
+  moved_ = false;
   it_ = const_map.end();
   if (it_ != const_map.begin()) {
     it_--;
@@ -653,6 +662,7 @@ template <class STRMAP>
 Status StdDBMIteratorImpl<STRMAP>::Jump(std::string_view key) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   const auto& const_map = dbm_->map_;
+  moved_ = false;
   it_ = const_map.find(std::string(key));
   if (it_ == dbm_->map_.end()) {
     return Status(Status::NOT_FOUND_ERROR);
@@ -664,6 +674,7 @@ template <>
 Status StdDBMIteratorImpl<StringTreeMap>::Jump(std::string_view key) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   const auto& const_map = dbm_->map_;
+  moved_ = false;
   it_ = const_map.lower_bound(std::string(key));
   return Status(Status::SUCCESS);
 }
@@ -677,6 +688,7 @@ template <>
 Status StdDBMIteratorImpl<StringTreeMap>::JumpLower(std::string_view key, bool inclusive) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   const auto& const_map = dbm_->map_;
+  moved_ = false;
   it_ = const_map.lower_bound(std::string(key));
   if (it_ == const_map.end()) {
     if (it_ == const_map.begin()) {
@@ -709,6 +721,7 @@ template <>
 Status StdDBMIteratorImpl<StringTreeMap>::JumpUpper(std::string_view key, bool inclusive) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   const auto& const_map = dbm_->map_;
+  moved_ = false;
   it_ = inclusive ? const_map.lower_bound(std::string(key)) :
       const_map.upper_bound(std::string(key));
   return Status(Status::SUCCESS);
@@ -721,7 +734,9 @@ Status StdDBMIteratorImpl<STRMAP>::Next() {
   if (it_ == const_map.end()) {
     return Status(Status::NOT_FOUND_ERROR);
   }
-  if (it_ != const_map.end()) {
+  if (moved_) {
+    moved_ = false;
+  } else {
     ++it_;
   }
   return Status(Status::SUCCESS);
@@ -736,9 +751,10 @@ template <>
 Status StdDBMIteratorImpl<StringTreeMap>::Previous() {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   const auto& const_map = dbm_->map_;
-  if (it_ == const_map.end()) {
+  if (it_ == const_map.end() && !moved_) {
     return Status(Status::NOT_FOUND_ERROR);
   }
+  moved_ = false;
   if (it_ == const_map.begin()) {
     it_ = const_map.end();
   } else {
@@ -754,6 +770,7 @@ Status StdDBMIteratorImpl<STRMAP>::Process(DBM::RecordProcessor* proc, bool writ
     if (it_ == dbm_->map_.end()) {
       return Status(Status::NOT_FOUND_ERROR);
     }
+    moved_ = false;
     const std::string_view new_value = proc->ProcessFull(it_->first, it_->second);
     if (new_value.data() == DBM::RecordProcessor::NOOP.data()) {
     } else if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
@@ -763,6 +780,7 @@ Status StdDBMIteratorImpl<STRMAP>::Process(DBM::RecordProcessor* proc, bool writ
       for (auto* iterator : dbm_->iterators_) {
         if (iterator != this && iterator->it_ == it_) {
           ++iterator->it_;
+          iterator->moved_ = true;
         }
       }
       dbm_->map_.erase(it_++);
@@ -777,6 +795,7 @@ Status StdDBMIteratorImpl<STRMAP>::Process(DBM::RecordProcessor* proc, bool writ
     if (it_ == dbm_->map_.end()) {
       return Status(Status::NOT_FOUND_ERROR);
     }
+    moved_ = false;
     proc->ProcessFull(it_->first, it_->second);
   }
   return Status(Status::SUCCESS);
-- 
2.43.0


From fe76a27547dd65a442a0ccb7fc711c941f9a8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:05 +0000
Subject: [PATCH 26/41] fix: keep iterators of ShardDBM consistent after their
 own updates and removals

---
 tkrzw_dbm_shard.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index a86bc1b..9279bad 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -834,11 +834,14 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
   auto* slot = heap_.front();
   class Checker : public DBM::RecordProcessor {
    public:
-    explicit Checker(RecordProcessor* proc) : proc_(proc), removed_(false)  {}
+    Checker(RecordProcessor* proc, bool writable, ShardSlot* slot)
+        : proc_(proc), writable_(writable), slot_(slot), removed_(false)  {}
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       const std::string_view rv = proc_->ProcessFull(key, value);
       if (rv.data() == REMOVE.data()) {
         removed_ = true;
+      } else if (writable_ && rv.data() != NOOP.data() && key == slot_->key) {
+        slot_->value = rv;
       }
       return rv;
     }
@@ -850,10 +853,16 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
     }
    private:
     DBM::RecordProcessor* proc_;
+    bool writable_;
+    ShardSlot* slot_;
     bool removed_;
-  } checker(proc);
+  } checker(proc, writable, slot);
   const Status status = slot->iter->Process(&checker, writable);
   if (status == Status::SUCCESS && writable && checker.HasRemoved()) {
+    if (!asc_) {
+      const std::string removed_key = slot->key;
+      return Jump(removed_key);
+    }
     std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     slot = heap_.back();
     const Status get_status = slot->iter->Get(&slot->key, &slot->value);
@@ -900,6 +909,10 @@ Status ShardDBM::Iterator::Remove(std::string* old_key, std::string* old_value)
   auto* slot = heap_.front();
   const Status status = slot->iter->Remove(old_key, old_value);
   if (status == Status::SUCCESS) {
+    if (!asc_) {
+      const std::string removed_key = slot->key;
+      return Jump(removed_key);
+    }
     std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     slot = heap_.back();
     const Status get_status = slot->iter->Get(&slot->key, &slot->value);
-- 
2.43.0


From ca2003adfacd728ad64971db58a681975f5bc673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 27/41] fix: leave the message queue closed when opening it
 fails

---
 tkrzw_message_queue.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 1edab0c..8822a70 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -186,6 +186,7 @@ Status MessageQueueImpl::Open(
   status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
                         &check_file_size);
   if (status != Status::SUCCESS) {
+    files_.clear();
     return status;
   }
   if (cyclic_magic_ < 0) {
@@ -194,6 +195,7 @@ Status MessageQueueImpl::Open(
       status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
                             &check_file_size);
       if (status != Status::SUCCESS) {
+        files_.clear();
         return status;
       }
     }
@@ -208,6 +210,7 @@ Status MessageQueueImpl::Open(
     if (options & MessageQueue::OPEN_IGNORE_BROKEN) {
       check_file_size = -1;
     } else {
+      files_.clear();
       return status;
     }
   }
@@ -236,6 +239,7 @@ Status MessageQueueImpl::Open(
     }
   }
   if (status != Status::SUCCESS) {
+    files_.clear();
     return status;
   }
   last_file_ = last_file;
-- 
2.43.0


From 3752c5d0985a2e3ddbea9ce3684aa97f401dff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 28/41] fix: restore the timestamp and drop torn messages when
 a message queue not closed properly is opened

---
 tkrzw_message_queue.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 8822a70..8bc2d67 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -218,10 +218,14 @@ Status MessageQueueImpl::Open(
   if (check_file_size != act_file_size) {
     if (!read_only_) {
       int64_t offset = METADATA_SIZE;
+      int64_t next_offset = offset;
       int64_t timestamp = 0;
       std::string message;
       while (MessageQueue::ReadNextMessage(
-                 last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS) {
+                 last_file.get(), &next_offset, &timestamp, &message, INT64MAX) ==
+             Status::SUCCESS && next_offset <= act_file_size) {
+        offset = next_offset;
+        timestamp_ = std::max(timestamp_, timestamp);
       }
       check_file_size = offset;
     }
-- 
2.43.0


From 6ffe1dcd791ef3d3c8153bb559a4de7456bdf3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:54 +0000
Subject: [PATCH 29/41] fix: open a message queue with inconsistent metadata if
 broken data is to be ignored

---
 tkrzw_message_queue.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 8bc2d67..d5381ca 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -209,6 +209,7 @@ Status MessageQueueImpl::Open(
   if (status != Status::SUCCESS) {
     if (options & MessageQueue::OPEN_IGNORE_BROKEN) {
       check_file_size = -1;
+      status.Set(Status::SUCCESS);
     } else {
       files_.clear();
       return status;
-- 
2.43.0


From ec52eef7c758c9050a59359c000de2eb789e3403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 30/41] fix: apply update logs from message queue files without
 messages or with a zero-filled tail

---
 tkrzw_dbm_ulog.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index f1101ab..65b4edd 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -26,6 +26,7 @@
 namespace tkrzw {
 
 static constexpr size_t WRITE_BUFFER_SIZE = 4096;
+static constexpr int64_t MQ_METADATA_SIZE = 32;
 static constexpr uint8_t OP_MAGIC_SET = 0xA1;
 static constexpr uint8_t OP_MAGIC_REMOVE = 0xA2;
 static constexpr uint8_t OP_MAGIC_CLEAR = 0xA3;
@@ -349,14 +350,14 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
       return status;
     }
     file_size = std::min(file_size, file.GetSizeSimple());
-    int64_t file_offset = 0;
+    int64_t file_offset = MQ_METADATA_SIZE;
     std::string message;
     while (file_offset < file_size) {
       status = tkrzw::MessageQueue::ReadNextMessage(
           &file, &file_offset, &timestamp, &message);
       if (status != Status::SUCCESS) {
         if (status == Status::CANCELED_ERROR) {
-          continue;
+          break;
         }
         return status;
       }
-- 
2.43.0


From 42da6969a298c1c321d4204f6852473cab171f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 31/41] fix: report failures of the database when an update log
 is applied

---
 tkrzw_dbm_ulog.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index 65b4edd..5047705 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -315,6 +315,9 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
       break;
     case OP_REMOVE:
       status = dbm->Remove(op.key);
+      if (status == Status::NOT_FOUND_ERROR) {
+        status.Set(Status::SUCCESS);
+      }
       break;
     case OP_CLEAR:
       status = dbm->Clear();
@@ -322,7 +325,7 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
     default:
       break;
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
-- 
2.43.0


From 8eb2c68077b51521b832313b6e91c179f3906e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:27 +0000
Subject: [PATCH 32/41] fix: find the records after a half-written one when
 restoring a hash database

A broken record followed by fewer than three others, or larger than the
range of the search, hid every record behind it.
---
 tkrzw_dbm_hash_impl.cc | 74 ++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 24 deletions(-)

diff --git a/tkrzw_dbm_hash_impl.cc b/tkrzw_dbm_hash_impl.cc
index 4fa6555..2a1ab03 100644
--- a/tkrzw_dbm_hash_impl.cc
+++ b/tkrzw_dbm_hash_impl.cc
@@ -316,34 +316,60 @@ Status HashRecord::FindNextOffset(int64_t offset, int32_t min_read_size, int64_t
   const int64_t min_record_size =
       sizeof(uint8_t) + offset_width_ + sizeof(uint8_t) * 3 + crc_width_;
   const int32_t align = 1 << align_pow_;
-  offset += min_record_size;
-  offset = AlignNumber(offset, align);
   int64_t file_size = file_->GetSizeSimple();
   HashRecord rec(file_, crc_width_, offset_width_, align_pow_);
-  int32_t num_shift_tries = MAX_SHIFT_TRIES;
-  while (num_shift_tries-- > 0 && offset < file_size) {
-    if (rec.ReadMetadataKey(offset, min_read_size) == Status::SUCCESS &&
-        rec.CheckCRC() == Status::SUCCESS) {
-      int32_t count = 0;
-      int64_t forward_offset = offset + rec.GetWholeSize();
-      while (forward_offset < file_size && count < VALIDATION_COUNT &&
-             rec.ReadMetadataKey(forward_offset, min_read_size) == Status::SUCCESS &&
-             rec.CheckCRC() == Status::SUCCESS) {
-        const int32_t rec_size = rec.GetWholeSize();
-        if (rec_size <= MAX_REC_SIZE && rec_size % align != 0) {
-          break;
-        }
-        if (forward_offset + rec_size == file_size) {
-          count = VALIDATION_COUNT;
-          break;
-        }
-        count++;
-        forward_offset += rec_size;
+  auto check_tail = [&](int64_t tail_offset) {
+    constexpr int64_t MAX_CHECK_SIZE = 128 * 1024;
+    const int64_t end_offset = std::min(tail_offset + MAX_CHECK_SIZE, file_size);
+    char buf[8192];
+    while (tail_offset < end_offset) {
+      const int64_t size = std::min<int64_t>(end_offset - tail_offset, sizeof(buf));
+      if (file_->Read(tail_offset, buf, size) != Status::SUCCESS ||
+          std::any_of(buf, buf + size, [](char c) { return c != 0; })) {
+        return false;
       }
-      if (count >= VALIDATION_COUNT) {
-        *next_offset = offset;
-        return Status(Status::SUCCESS);
+      tail_offset += size;
+    }
+    return tail_offset == end_offset;
+  };
+  auto check_sequence = [&](int64_t first_offset) {
+    if (rec.ReadMetadataKey(first_offset, min_read_size) != Status::SUCCESS ||
+        rec.CheckCRC() != Status::SUCCESS) {
+      return false;
+    }
+    int32_t count = 0;
+    int64_t forward_offset = first_offset + rec.GetWholeSize();
+    while (forward_offset < file_size && count < VALIDATION_COUNT &&
+           rec.ReadMetadataKey(forward_offset, min_read_size) == Status::SUCCESS &&
+           rec.CheckCRC() == Status::SUCCESS) {
+      const int32_t rec_size = rec.GetWholeSize();
+      if (rec_size <= MAX_REC_SIZE && rec_size % align != 0) {
+        return false;
       }
+      count++;
+      forward_offset += rec_size;
+    }
+    return count >= VALIDATION_COUNT || check_tail(forward_offset);
+  };
+  rec.whole_size_ = 0;
+  rec.ReadMetadataKey(offset, min_read_size);
+  const int64_t following_offset = offset + rec.GetWholeSize();
+  if (following_offset > offset && following_offset % align == 0) {
+    if (check_tail(following_offset)) {
+      return Status(Status::NOT_FOUND_ERROR);
+    }
+    if (check_sequence(following_offset)) {
+      *next_offset = following_offset;
+      return Status(Status::SUCCESS);
+    }
+  }
+  offset += min_record_size;
+  offset = AlignNumber(offset, align);
+  int32_t num_shift_tries = MAX_SHIFT_TRIES;
+  while (num_shift_tries-- > 0 && offset < file_size) {
+    if (check_sequence(offset)) {
+      *next_offset = offset;
+      return Status(Status::SUCCESS);
     }
     offset += align;
   }
-- 
2.43.0


From c6d1d280e373b06e65277e134204f25d7a1ad2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:27 +0000
Subject: [PATCH 33/41] fix: discard the data beyond the new end when a file is
 truncated

With preallocated space, the old bytes came back when the file was expanded
again, though null codes are promised.
---
 tkrzw_file_mmap.cc | 6 ++++--
 tkrzw_file_pos.cc  | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 1c1724b..eab797b 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -261,7 +261,8 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   AdviseMemoryRandomAccessPattern(new_map, new_map_size);
   map_ = static_cast<char*>(new_map);
   map_size_.store(new_map_size);
-  const Status status = TruncateFile(fd_, new_map_size);
+  Status status = TruncateFile(fd_, std::min(size, file_size_.load()));
+  status |= TruncateFile(fd_, new_map_size);
   if (status != Status::SUCCESS) {
     return status;
   }
@@ -829,7 +830,8 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   }
   map_ = static_cast<char*>(new_map);
   map_size_ = new_map_size;
-  const Status status = TruncateFile(fd_, new_map_size);
+  Status status = TruncateFile(fd_, std::min(size, file_size_));
+  status |= TruncateFile(fd_, new_map_size);
   if (status != Status::SUCCESS) {
     return status;
   }
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index a4e472d..78bfa6a 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -364,6 +364,7 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
+  status |= TruncateFile(fd_, std::min(size, file_size_.load()));
   status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_.store(size);
@@ -1054,6 +1055,7 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
+  status |= TruncateFile(fd_, std::min(size, file_size_));
   status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_ = size;
-- 
2.43.0


From f0ef790e10db74bdd7a02c9c6200fb49ad6132a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:27 +0000
Subject: [PATCH 34/41] fix: save the free block pool before marking the
 database closed

A process killed in between left a healthy database with a stale pool,
which made later updates overwrite live records.
---
 tkrzw_dbm_hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d03dd6f..38aa9e6 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1239,8 +1239,8 @@ Status HashDBMImpl::CloseImpl() {
   if (writable_ && healthy_) {
     file_size_ = file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    status |= SaveMetadata(true);
     status |= SaveFBP();
+    status |= SaveMetadata(true);
   }
   open_ = false;
   writable_ = false;
-- 
2.43.0


From bec82e0c285237cd709320d522eb658532cdf3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:41 +0000
Subject: [PATCH 35/41] fix: keep a hash database restorable when the process
 is killed while clearing it

The file was marked closed with the old figures while its buckets were
already blank.
---
 tkrzw_dbm_hash.cc | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 38aa9e6..443f34b 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -146,6 +146,7 @@ class HashDBMImpl final {
 
  private:
   void SetTuning(const HashDBM::TuningParameters& tuning_params);
+  Status InitializeFile();
   Status OpenImpl(bool writable);
   Status CloseImpl();
   void CancelIterators();
@@ -676,8 +677,17 @@ Status HashDBMImpl::Clear() {
   const uint32_t db_type = db_type_;
   const std::string opaque = opaque_;
   CancelIterators();
-  Status status = CloseImpl();
-  status |= file_->Truncate(0);
+  Status status(Status::SUCCESS);
+  if (healthy_) {
+    num_records_.store(0);
+    eff_data_size_.store(0);
+    file_size_ = record_base_;
+    status |= SaveMetadata(false);
+    healthy_ = false;
+  }
+  const int64_t record_base = record_base_;
+  status |= CloseImpl();
+  status |= file_->Truncate(record_base);
   static_flags_ = static_flags;
   offset_width_ = offset_width;
   align_pow_ = align_pow;
@@ -687,6 +697,7 @@ Status HashDBMImpl::Clear() {
   cipher_key_ = cipher_key;
   db_type_ = db_type;
   opaque_ = opaque;
+  status |= InitializeFile();
   status |= OpenImpl(true);
   return status;
 }
@@ -1169,20 +1180,24 @@ void HashDBMImpl::SetTuning(const HashDBM::TuningParameters& tuning_params) {
   cipher_key_ = tuning_params.cipher_key;
 }
 
+Status HashDBMImpl::InitializeFile() {
+  SetRecordBase();
+  const Status status = InitializeBuckets();
+  if (status != Status::SUCCESS) {
+    return status;
+  }
+  const auto version_nums = StrSplit(PACKAGE_VERSION, '.');
+  pkg_major_version_ = version_nums.size() > 0 ? StrToInt(version_nums[0]) : 0;
+  pkg_minor_version_ = version_nums.size() > 1 ? StrToInt(version_nums[1]) : 0;
+  closure_flags_ |= CLOSURE_FLAG_CLOSE;
+  file_size_ = file_->GetSizeSimple();
+  timestamp_ = GetWallTime() * 1000000;
+  return SaveMetadata(true);
+}
+
 Status HashDBMImpl::OpenImpl(bool writable) {
   if (writable && file_->GetSizeSimple() < 1) {
-    SetRecordBase();
-    Status status = InitializeBuckets();
-    if (status != Status::SUCCESS) {
-      return status;
-    }
-    const auto version_nums = StrSplit(PACKAGE_VERSION, '.');
-    pkg_major_version_ = version_nums.size() > 0 ? StrToInt(version_nums[0]) : 0;
-    pkg_minor_version_ = version_nums.size() > 1 ? StrToInt(version_nums[1]) : 0;
-    closure_flags_ |= CLOSURE_FLAG_CLOSE;
-    file_size_ = file_->GetSizeSimple();
-    timestamp_ = GetWallTime() * 1000000;
-    status = SaveMetadata(true);
+    const Status status = InitializeFile();
     if (status != Status::SUCCESS) {
       return status;
     }
-- 
2.43.0


From 10dd4c3328c200fb1cd9fa978f3d8c21f034ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 36/41] fix: open on-memory databases whose process was killed
 while the file was mapped

The mapped file is expanded with zeros while it is open, so killing the
process left trailing zeros and the next opening failed as broken data.
---
 tkrzw_file_util.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index cb9aad1..216b0bc 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1298,6 +1298,25 @@ Status FlatRecord::Write(std::string_view data, RecordType rec_type) {
   return status;
 }
 
+// Checks whether only zeros are left, which a file being expanded has when the process is killed.
+static bool IsZeroPadding(File* file, int64_t offset) {
+  const int64_t file_size = file->GetSizeSimple();
+  char buf[4096];
+  while (offset < file_size) {
+    const int64_t read_size = std::min<int64_t>(sizeof(buf), file_size - offset);
+    if (file->Read(offset, buf, read_size) != Status::SUCCESS) {
+      return false;
+    }
+    for (int64_t i = 0; i < read_size; i++) {
+      if (buf[i] != 0) {
+        return false;
+      }
+    }
+    offset += read_size;
+  }
+  return true;
+}
+
 FlatRecordReader::FlatRecordReader(File* file, size_t buffer_size)
     : file_(file), offset_(0), buffer_(nullptr), buffer_size_(0), data_size_(0), index_(0) {
   if (buffer_size < 1) {
@@ -1327,6 +1346,9 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
         *rec_type = FlatRecord::RECORD_METADATA;
       }
     } else {
+      if (*rp == 0 && IsZeroPadding(file_, offset_)) {
+        return Status(Status::NOT_FOUND_ERROR);
+      }
       return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
     }
     rp++;
@@ -1372,6 +1394,9 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
       *rec_type = FlatRecord::RECORD_METADATA;
     }
   } else {
+    if (*rp == 0 && IsZeroPadding(file_, offset_)) {
+      return Status(Status::NOT_FOUND_ERROR);
+    }
     return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
   }
   rp++;
-- 
2.43.0


From a08bbfb7611706dbb861aed3a576f7e9a3877684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 37/41] fix: write the database type and the opaque metadata
 into the rebuilt file before it replaces the old one

Otherwise a crash after HashDBM::Rebuild lost them, and a tree database,
which keeps its root there, could not be opened any more.
---
 tkrzw_dbm_hash.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 443f34b..6e9922c 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1787,7 +1787,9 @@ Status HashDBMImpl::RebuildImpl(
         return status;
       }
     }
-    status = tmp_dbm.Close();
+    status = tmp_dbm.SetDatabaseType(db_type_);
+    status |= tmp_dbm.SetOpaqueMetadata(opaque_);
+    status |= tmp_dbm.Close();
     if (status != Status::SUCCESS) {
       CleanUp();
       return status;
-- 
2.43.0


From 283aa05aa82c6fedd9491106b7fc0e3de6e0abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 38/41] fix: SkipDBM::Clear writes the metadata before it
 discards the records

A crash in between left metadata which counts records that are gone.
---
 tkrzw_dbm_skip.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index a24bcf4..ee5167c 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -699,12 +699,12 @@ Status SkipDBMImpl::Clear() {
     }
   }
   CancelIterators();
-  Status status = file_->Truncate(METADATA_SIZE);
   num_records_ = 0;
   eff_data_size_ = 0;
-  file_size_ = file_->GetSizeSimple();
+  file_size_ = METADATA_SIZE;
   timestamp_ = GetWallTime() * 1000000;
-  status |= SaveMetadata(file_.get(), false);
+  Status status = SaveMetadata(file_.get(), false);
+  status |= file_->Truncate(METADATA_SIZE);
   status |= LoadMetadata();
   status |= PrepareStorage();
   cache_ = std::make_unique<SkipRecordCache>(step_unit_, max_cached_records_, num_records_);
-- 
2.43.0


From efbc0d506b65e2e98426d4b9039689cfe4af8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 39/41] fix: SkipDBM::Rebuild keeps the database type and the
 opaque metadata over a crash

---
 tkrzw_dbm_skip.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index ee5167c..e9af148 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -799,7 +799,9 @@ Status SkipDBMImpl::Rebuild(
     offset += rec.GetWholeSize();
     index++;
   }
-  status = tmp_dbm.Close();
+  status = tmp_dbm.SetDatabaseType(db_type_);
+  status |= tmp_dbm.SetOpaqueMetadata(opaque_);
+  status |= tmp_dbm.Close();
   if (status != Status::SUCCESS) {
     CleanUp();
     return status;
-- 
2.43.0


From dcd96c412d26dd67a629bb35467438a50a164247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 40/41] fix: open a tree database whose pages were just cleared
 when the process was killed

---
 tkrzw_dbm_tree.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index e05e2b5..2581ea5 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -458,8 +458,14 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
     }
     auto_restored_ = true;
   }
-  if (writable && hash_dbm_->CountSimple() == 0 &&
-      hash_dbm_->GetOpaqueMetadata() == std::string(HashDBM::OPAQUE_METADATA_SIZE, 0)) {
+  if (writable && hash_dbm_->CountSimple() == 0) {
+    if (hash_dbm_->GetOpaqueMetadata() != std::string(HashDBM::OPAQUE_METADATA_SIZE, 0)) {
+      status = LoadMetadata();
+      if (status != Status::SUCCESS) {
+        hash_dbm_->Close();
+        return status;
+      }
+    }
     num_records_.store(0);
     eff_data_size_.store(0);
     root_id_ = 0;
-- 
2.43.0


From 748614216e7ea33690509c8bf7bd2ea1dd4ae115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 41/41] fix: write the page which receives records before the
 page which gives them away

With PAGE_UPDATE_WRITE, a crash between both writes lost the moved records.
---
 tkrzw_dbm_tree.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 2581ea5..cb9fd48 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -1759,8 +1759,8 @@ Status TreeDBMImpl::DivideNodes(TreeLeafNode* leaf_node, const std::string& node
     child_id = new_inner_node->id;
   }
   if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
-    status = SaveLeafNodeImpl(leaf_node);
-    status |= SaveLeafNodeImpl(new_leaf_node.get());
+    status = SaveLeafNodeImpl(new_leaf_node.get());
+    status |= SaveLeafNodeImpl(leaf_node);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1841,13 +1841,13 @@ Status TreeDBMImpl::MergeNodes(TreeLeafNode* leaf_node, const std::string& node_
         iterator->leaf_id_ = prev_leaf_node->id;
       }
     }
-    RemoveLeafNode(leaf_node);
     if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
       status = SaveLeafNodeImpl(prev_leaf_node.get());
       if (status != Status::SUCCESS) {
         return status;
       }
     }
+    RemoveLeafNode(leaf_node);
   } else if (next_leaf_node != nullptr) {
     next_leaf_node->records.swap(leaf_node->records);
     next_leaf_node->records.reserve(next_leaf_node->records.size() + leaf_node->records.size());
@@ -1876,13 +1876,13 @@ Status TreeDBMImpl::MergeNodes(TreeLeafNode* leaf_node, const std::string& node_
         iterator->leaf_id_ = next_leaf_node->id;
       }
     }
-    RemoveLeafNode(leaf_node);
     if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
       status = SaveLeafNodeImpl(next_leaf_node.get());
       if (status != Status::SUCCESS) {
         return status;
       }
     }
+    RemoveLeafNode(leaf_node);
   }
   std::shared_ptr<TreeInnerNode> inner_node = std::move(parent_node);
   while (static_cast<int32_t>(inner_node->links.size()) < max_branches_ / 2) {
-- 
2.43.0

