From c0e0b7280091676ec869146494d1b6ea9744df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 001/106] fix: keep the free block pool capacity positive after
 rebuilding a hash database

A capacity of zero made InsertFreeBlock erase from an empty set.
---
 tkrzw_dbm_hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d1ce92d..d03dd6f 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1811,7 +1811,7 @@ Status HashDBMImpl::RebuildImpl(
     }
     file_ = std::move(tmp_file);
     if (tuning_params.fbp_capacity >= 0) {
-      fbp_.SetCapacity(tuning_params.fbp_capacity);
+      fbp_.SetCapacity(std::max(1, tuning_params.fbp_capacity));
     }
     if (tuning_params.min_read_size >= 0) {
       if (tuning_params.min_read_size > 0) {
-- 
2.43.0


From 0fbfe9295129bac60e3a122abd7cbacdfc7a9e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 002/106] fix: do not append or log a removal of an already
 removed record

In the appending mode, removing a key whose latest record is a removal wrote another
removal record, which made validation and restoration count the removal twice.
---
 tkrzw_dbm_hash.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d03dd6f..0a4b56b 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1471,6 +1471,9 @@ Status HashDBMImpl::ProcessImpl(
       if (new_value.data() == nullptr) {
         return Status(Status::BROKEN_DATA_ERROR, "record processing failed");
       }
+      if (!old_is_set && new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
+        return Status(Status::SUCCESS);
+      }
       if (new_value.data() != DBM::RecordProcessor::NOOP.data() && writable) {
         if (update_logger_ != nullptr) {
           if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
-- 
2.43.0


From 11d6fb55837970b0cd9660c3569aec6fbfa33a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 003/106] fix: discard the data after the new end when a file
 is truncated

Truncate kept the old bytes between the new logical size and the aligned physical size, so
that expanding exposed them again, closing with padding wrote them, and a database that was
cleared could get removed records back after a crash.
---
 tkrzw_file_mmap.cc | 8 ++++++++
 tkrzw_file_pos.cc  | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 1c1724b..7761650 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -250,6 +250,10 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   int64_t new_map_size =
       std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
   new_map_size = AlignNumber(new_map_size, PAGE_SIZE);
+  const int64_t discard_end = std::min(file_size_.load(), new_map_size);
+  if (size < discard_end) {
+    std::memset(map_ + size, 0, discard_end - size);
+  }
   void* new_map = tkrzw_mremap(map_, map_size_.load(), new_map_size, fd_);
   if (new_map == MAP_FAILED) {
     const Status status = GetErrnoStatus("mremap", errno);
@@ -819,6 +823,10 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   int64_t new_map_size =
       std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
   new_map_size = AlignNumber(new_map_size, PAGE_SIZE);
+  const int64_t discard_end = std::min(file_size_, new_map_size);
+  if (size < discard_end) {
+    std::memset(map_ + size, 0, discard_end - size);
+  }
   void* new_map = tkrzw_mremap(map_, map_size_, new_map_size, fd_);
   if (new_map == MAP_FAILED) {
     const Status status = GetErrnoStatus("mremap", errno);
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index a4e472d..0d4b8ab 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -364,6 +364,9 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
+  if (size < file_size_.load()) {
+    status |= TruncateFile(fd_, size);
+  }
   status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_.store(size);
@@ -1054,6 +1057,9 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
   }
+  if (size < file_size_) {
+    status |= TruncateFile(fd_, size);
+  }
   status |= TruncateFile(fd_, new_trunc_size);
   if (status == Status::SUCCESS) {
     file_size_ = size;
-- 
2.43.0


From c516cdf8a68c269b3b22274fb4f247c78108ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 004/106] fix: load the ID of the last leaf node of a tree
 database from its own field

---
 tkrzw_dbm_tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9faa4d3..45a36dd 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2767,7 +2767,7 @@ Status TreeDBM::ParseMetadata(
   *eff_data_size = ReadFixNum(rp + META_OFFSET_EFF_DATA_SIZE, 6);
   *root_id = ReadFixNum(rp + META_OFFSET_ROOT_ID, 6);
   *first_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
-  *last_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
+  *last_id = ReadFixNum(rp + META_OFFSET_LAST_ID, 6);
   *num_leaf_nodes = ReadFixNum(rp + META_OFFSET_NUM_LEAF_NODES, 6);
   *num_inner_nodes = ReadFixNum(rp + META_OFFSET_NUM_INNER_NODES, 6);
   *max_page_size = ReadFixNum(rp + META_OFFSET_MAX_PAGE_SIZE, 3);
-- 
2.43.0


From e8a347f808dd47d15cb743da61a64d81c903c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 005/106] fix: do not skip the rest of the leaf node when
 moving a tree iterator backward from a removed record

---
 tkrzw_dbm_tree.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 45a36dd..89e2027 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2399,12 +2399,10 @@ Status TreeDBMIteratorImpl::PreviousImpl(std::string_view key) {
     std::shared_lock<SpinSharedMutex> lock(node->mutex);
     auto& records = node->records;
     auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-    if (it != records.end()) {
-      if (it != records.begin()) {
-        --it;
-        SetPositionWithKey(leaf_id_, (*it)->GetKey());
-        hit = true;
-      }
+    if (it != records.begin()) {
+      --it;
+      SetPositionWithKey(leaf_id_, (*it)->GetKey());
+      hit = true;
     }
   }
   Status status(Status::SUCCESS);
-- 
2.43.0


From a9f19266a2a94e4b70dbeada4a6efb0ba58bd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 006/106] fix: free the previous key when a tree iterator moves
 to another record

---
 tkrzw_dbm_tree.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 89e2027..13e62c5 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2326,10 +2326,14 @@ Status TreeDBMIteratorImpl::SetPositionLast(int64_t leaf_id) {
 }
 
 void TreeDBMIteratorImpl::SetPositionWithKey(int64_t leaf_id, std::string_view key) {
+  char* old_key_ptr = key_ptr_;
   key_ptr_ = key.size() > sizeof(stack_) ? new char[key.size()] : stack_;
   std::memcpy(key_ptr_, key.data(), key.size());
   key_size_ = key.size();
   leaf_id_ = leaf_id;
+  if (old_key_ptr != stack_) {
+    delete[] old_key_ptr;
+  }
 }
 
 Status TreeDBMIteratorImpl::NextImpl(std::string_view key) {
-- 
2.43.0


From 2843c7a779cd84d933c5def7429fe5a2e5eceb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 007/106] fix: SkipDBM::ValidateRecords reads a key whose
 buffer has been reused

---
 tkrzw_dbm_skip.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 05bec97..b6e0d64 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1097,14 +1097,14 @@ Status SkipDBMImpl::ValidateRecords() {
     }
     offset += rec.GetWholeSize();
     index++;
-    if (offset == end_offset || last_key != key) {
-      std::string tmp_key(key);
+    std::string tmp_key(key);
+    if (offset == end_offset || last_key != tmp_key) {
       status = rec.Search(METADATA_SIZE, cache_.get(), tmp_key, false);
       if (status != Status::SUCCESS) {
         return status;
       }
     }
-    last_key = key;
+    last_key = std::move(tmp_key);
   }
   return Status(Status::SUCCESS);
 }
-- 
2.43.0


From 2772a9bebc29485c358ec33fda3f3c7e2fdd232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 008/106] fix: SkipDBM::Set ignores overwrite when the old
 value is requested

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index b6e0d64..fbf1217 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1791,7 +1791,7 @@ Status SkipDBM::Set(std::string_view key, std::string_view value, bool overwrite
   if (overwrite && old_value == nullptr) {
     return impl_->Insert(key, value);
   }
-  return DBM::Set(key, value, false, old_value);
+  return DBM::Set(key, value, overwrite, old_value);
 }
 
 Status SkipDBM::Remove(std::string_view key, std::string* old_value) {
-- 
2.43.0


From 9aa18c66df12e919a4154299e1d6d75a25f64ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 009/106] fix: SkipDBM overflows the index difference of the
 first record

---
 tkrzw_dbm_skip_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index de149e1..02586e2 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -239,7 +239,7 @@ Status SkipRecord::UpdatePastRecords(
     past_index_diff *= step_unit_;
     int64_t past_offset = (*past_offsets)[i];
     if (past_offset <= 0) {
-      continue;
+      break;
     }
     int64_t past_index = index - past_index_diff;
     int32_t past_level = 0;
-- 
2.43.0


From 03a8a7c70ed2ee97b722c13aee675dcf531e3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:37 +0000
Subject: [PATCH 010/106] fix: SkipDBM in the in-order mode stores removal
 marks as records

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index fbf1217..9f7d7b7 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1253,7 +1253,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   const std::string sorted_path = path_ + SORTED_FILE_SUFFIX;
   const std::string merged_path = path_ + MERGED_FILE_SUFFIX;
   Status status(Status::SUCCESS);
-  if (reducer == nullptr && sorted_file_ != nullptr &&
+  if (reducer == nullptr && !removed_ && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
       !record_sorter_->IsUpdated()) {
     file_size_ = sorted_file_->GetSizeSimple();
-- 
2.43.0


From d10865bc4d4d339069c686981155862a85d1f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 011/106] fix: SkipDBM puts merged records before the existing
 ones of the same key

---
 tkrzw_dbm_skip.cc      | 2 +-
 tkrzw_dbm_skip_impl.cc | 8 ++++++--
 tkrzw_dbm_skip_impl.h  | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 9f7d7b7..017848b 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1274,7 +1274,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   } else {
     if (file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
       record_sorter_->AddSkipRecord(new SkipRecord(
-          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE);
+          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE, true);
     }
     if (sorted_file_ != nullptr &&
         sorted_file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index 02586e2..b592258 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -561,8 +561,12 @@ Status RecordSorter::Add(std::string_view key, std::string_view value) {
   return status;
 }
 
-void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base) {
-  skip_records_.emplace_back(rec, record_base);
+void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base, bool front) {
+  if (front) {
+    skip_records_.emplace(skip_records_.begin(), rec, record_base);
+  } else {
+    skip_records_.emplace_back(rec, record_base);
+  }
 }
 
 void RecordSorter::TakeFileOwnership(std::unique_ptr<File>&& file) {
diff --git a/tkrzw_dbm_skip_impl.h b/tkrzw_dbm_skip_impl.h
index 1bb990c..66dff61 100644
--- a/tkrzw_dbm_skip_impl.h
+++ b/tkrzw_dbm_skip_impl.h
@@ -300,8 +300,9 @@ class RecordSorter final {
    * Adds a file of SkipRecord.
    * @param rec The pointer to a skip record, whose ownership is taken.
    * @param record_base The record base offset.
+   * @param front If true, its records precede the ones of the files added before.
    */
-  void AddSkipRecord(SkipRecord* rec, int64_t record_base);
+  void AddSkipRecord(SkipRecord* rec, int64_t record_base, bool front = false);
 
   /**
    * Takes ownership of a file object.
-- 
2.43.0


From de47ed98819c8b75d95c289df47933bcd83b998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 012/106] fix: SkipDBM in the in-order mode counts records
 which are not synchronized

---
 tkrzw_dbm_skip.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 017848b..4313054 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -158,6 +158,8 @@ class SkipDBMImpl final {
   DBM::UpdateLogger* update_logger_;
   int64_t old_num_records_;
   int64_t old_eff_data_size_;
+  int64_t sorted_num_records_;
+  int64_t sorted_eff_data_size_;
   SpinSharedMutex mutex_;
 };
 
@@ -198,6 +200,7 @@ SkipDBMImpl::SkipDBMImpl(std::unique_ptr<File> file)
       max_cached_records_(SkipDBM::DEFAULT_MAX_CACHED_RECORDS),
       record_sorter_(nullptr), past_offsets_(), cache_(nullptr), update_logger_(nullptr),
       old_num_records_(0), old_eff_data_size_(0),
+      sorted_num_records_(0), sorted_eff_data_size_(0),
       mutex_() {}
 
 SkipDBMImpl::~SkipDBMImpl() {
@@ -1244,6 +1247,8 @@ Status SkipDBMImpl::PrepareStorage() {
     past_offsets_.clear();
     past_offsets_.resize(max_level_, 0);
   }
+  sorted_num_records_ = 0;
+  sorted_eff_data_size_ = 0;
   old_num_records_ = num_records_;
   old_eff_data_size_ = eff_data_size_;
   return Status(Status::SUCCESS);
@@ -1256,6 +1261,8 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   if (reducer == nullptr && !removed_ && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
       !record_sorter_->IsUpdated()) {
+    num_records_ = sorted_num_records_;
+    eff_data_size_ = sorted_eff_data_size_;
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
@@ -1440,8 +1447,13 @@ Status SkipDBMImpl::WriteRecord(std::string_view key, std::string_view value, Fi
   if (status != Status::SUCCESS) {
     return status;
   }
-  num_records_++;
-  eff_data_size_ += key.size() + value.size();
+  if (file == sorted_file_.get()) {
+    sorted_num_records_++;
+    sorted_eff_data_size_ += key.size() + value.size();
+  } else {
+    num_records_++;
+    eff_data_size_ += key.size() + value.size();
+  }
   record_index_++;
   return Status(Status::SUCCESS);
 }
-- 
2.43.0


From 2da1bf954a0b5a93764750c4177c79802abf00be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 013/106] fix: SkipDBM closed after Clear is regarded as broken

---
 tkrzw_dbm_skip.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 4313054..6182e46 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -707,7 +707,9 @@ Status SkipDBMImpl::Clear() {
   file_size_ = file_->GetSizeSimple();
   timestamp_ = GetWallTime() * 1000000;
   status |= SaveMetadata(file_.get(), false);
+  const uint8_t closure_flags = closure_flags_;
   status |= LoadMetadata();
+  closure_flags_ = closure_flags;
   status |= PrepareStorage();
   cache_ = std::make_unique<SkipRecordCache>(step_unit_, max_cached_records_, num_records_);
   return status;
-- 
2.43.0


From f90cb8657f09c78ed0a5e31883e901a4742d9d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:43 +0000
Subject: [PATCH 014/106] fix: SkipDBM::MergeSkipDatabase reads the padding of
 the source file as records

---
 tkrzw_dbm_skip.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 6182e46..96a9b77 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1049,6 +1049,7 @@ Status SkipDBMImpl::MergeSkipDatabase(const std::string& src_path) {
   uint32_t src_offset_width = 0;
   uint32_t src_step_unit = 0;
   uint32_t src_max_level = 0;
+  int64_t src_file_size = 0;
   {
     SkipDBMImpl src_impl(file_->MakeFile());
     Status status =
@@ -1059,6 +1060,7 @@ Status SkipDBMImpl::MergeSkipDatabase(const std::string& src_path) {
     src_offset_width = src_impl.offset_width_;
     src_step_unit = src_impl.step_unit_;
     src_max_level = src_impl.max_level_;
+    src_file_size = src_impl.file_->GetSizeSimple();
     status = src_impl.Close();
     if (status != Status::SUCCESS) {
       return status;
@@ -1069,6 +1071,10 @@ Status SkipDBMImpl::MergeSkipDatabase(const std::string& src_path) {
   if (status != Status::SUCCESS) {
     return status;
   }
+  status = src_file->TruncateFakely(src_file_size);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   record_sorter_->AddSkipRecord(new SkipRecord(
       src_file.get(), src_offset_width, src_step_unit, src_max_level), METADATA_SIZE);
   record_sorter_->TakeFileOwnership(std::move(src_file));
-- 
2.43.0


From 60bbf4ad92ec4eaeaf174c5d9372c1dd818521fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:28 +0000
Subject: [PATCH 015/106] fix: SkipDBM iterators in the in-order mode count
 records which are not synchronized

This replaces the previous change of the counters, which the tests do not allow.
---
 tkrzw_dbm_skip.cc | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 96a9b77..8ae280c 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -121,6 +121,7 @@ class SkipDBMImpl final {
   Status PrepareStorage();
   Status FinishStorage(SkipDBM::ReducerType reducer);
   Status DiscardStorage();
+  int64_t GetNumSyncedRecords() const;
   Status UpdateRecord(std::string_view key, std::string_view new_value);
   Status WriteRecord(std::string_view key, std::string_view value, File* file);
   Status ProcessImpl(std::string_view key, DBM::RecordProcessor* proc, bool writable);
@@ -158,8 +159,6 @@ class SkipDBMImpl final {
   DBM::UpdateLogger* update_logger_;
   int64_t old_num_records_;
   int64_t old_eff_data_size_;
-  int64_t sorted_num_records_;
-  int64_t sorted_eff_data_size_;
   SpinSharedMutex mutex_;
 };
 
@@ -200,7 +199,6 @@ SkipDBMImpl::SkipDBMImpl(std::unique_ptr<File> file)
       max_cached_records_(SkipDBM::DEFAULT_MAX_CACHED_RECORDS),
       record_sorter_(nullptr), past_offsets_(), cache_(nullptr), update_logger_(nullptr),
       old_num_records_(0), old_eff_data_size_(0),
-      sorted_num_records_(0), sorted_eff_data_size_(0),
       mutex_() {}
 
 SkipDBMImpl::~SkipDBMImpl() {
@@ -1255,8 +1253,6 @@ Status SkipDBMImpl::PrepareStorage() {
     past_offsets_.clear();
     past_offsets_.resize(max_level_, 0);
   }
-  sorted_num_records_ = 0;
-  sorted_eff_data_size_ = 0;
   old_num_records_ = num_records_;
   old_eff_data_size_ = eff_data_size_;
   return Status(Status::SUCCESS);
@@ -1269,8 +1265,6 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   if (reducer == nullptr && !removed_ && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
       !record_sorter_->IsUpdated()) {
-    num_records_ = sorted_num_records_;
-    eff_data_size_ = sorted_eff_data_size_;
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
@@ -1410,6 +1404,10 @@ Status SkipDBMImpl::DiscardStorage() {
   return status;
 }
 
+int64_t SkipDBMImpl::GetNumSyncedRecords() const {
+  return sorted_file_ == nullptr ? num_records_ : old_num_records_;
+}
+
 Status SkipDBMImpl::UpdateRecord(std::string_view key, std::string_view new_value) {
   if (new_value.data() != DBM::RecordProcessor::NOOP.data()) {
     if (update_logger_ != nullptr) {
@@ -1455,13 +1453,8 @@ Status SkipDBMImpl::WriteRecord(std::string_view key, std::string_view value, Fi
   if (status != Status::SUCCESS) {
     return status;
   }
-  if (file == sorted_file_.get()) {
-    sorted_num_records_++;
-    sorted_eff_data_size_ += key.size() + value.size();
-  } else {
-    num_records_++;
-    eff_data_size_ += key.size() + value.size();
-  }
+  num_records_++;
+  eff_data_size_ += key.size() + value.size();
   record_index_++;
   return Status(Status::SUCCESS);
 }
@@ -1523,9 +1516,9 @@ Status SkipDBMIteratorImpl::Last() {
   if (!dbm_->open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
-  if (dbm_->num_records_ > 0) {
+  if (dbm_->GetNumSyncedRecords() > 0) {
     SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
-    Status status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->num_records_ - 1);
+    Status status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->GetNumSyncedRecords() - 1);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1568,11 +1561,11 @@ Status SkipDBMIteratorImpl::JumpLower(std::string_view key, bool inclusive) {
   SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
   Status status = rec.Search(METADATA_SIZE, dbm_->cache_.get(), key, true);
   if (status == Status::NOT_FOUND_ERROR) {
-    if (dbm_->num_records_ < 1) {
+    if (dbm_->GetNumSyncedRecords() < 1) {
       ClearPosition();
       return Status(Status::SUCCESS);
     }
-    status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->num_records_ - 1);
+    status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->GetNumSyncedRecords() - 1);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1629,7 +1622,7 @@ Status SkipDBMIteratorImpl::JumpUpper(std::string_view key, bool inclusive) {
     if (ok) {
       return Status(Status::SUCCESS);
     }
-    if (record_index_ == dbm_->num_records_ - 1) {
+    if (record_index_ == dbm_->GetNumSyncedRecords() - 1) {
       ClearPosition();
       return Status(Status::SUCCESS);
     }
-- 
2.43.0


From 8bdbc1764d89bdaa8db7c2472e07690b289fee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 016/106] fix: FlatRecordReader misses an empty record at the
 end of the file

---
 tkrzw_file_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 464b7b1..cb9aad1 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1350,7 +1350,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
   if (status != Status::SUCCESS) {
     return status;
   }
-  if (file_size <= offset_ + min_record_size) {
+  if (file_size < offset_ + min_record_size) {
     return Status(Status::NOT_FOUND_ERROR);
   }
   data_size_ = std::min(static_cast<int64_t>(buffer_size_), file_size - offset_);
-- 
2.43.0


From babb169cc6b2c65a51ddd7fe811c4138b8bec8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 017/106] fix: PageCache reads beyond the end of a file whose
 last page is partial

---
 tkrzw_file_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index cb9aad1..a33ad6d 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -970,7 +970,9 @@ PageCache::PageRequest* PageCache::MakePageRequest(
   if (off_rem != 0) {
     const int64_t page_off = off - off_rem;
     const int64_t copy_size = std::min<int64_t>(size, page_size_ - off_rem);
-    requests[(*num_requests)++] = PageRequest({page_off, off_rem, page_size_, copy_size});
+    const int64_t data_size =
+        std::max(off_rem + copy_size, std::min(region_size_.load() - page_off, page_size_));
+    requests[(*num_requests)++] = PageRequest({page_off, off_rem, data_size, copy_size});
     off += copy_size;
     size -= copy_size;
   }
-- 
2.43.0


From 5ba5acda1cbf8d22c67a6225805c7cd728f6b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:30 +0000
Subject: [PATCH 018/106] fix: CacheDBM exceeds the memory capacity when values
 grow and drops recent records by Rebuild

---
 tkrzw_dbm_cache.cc | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 80caf5c..5160c53 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -69,6 +69,7 @@ class CacheSlot final {
   int64_t GetMemoryUsageImpl();
   void Rebuild(int64_t cap_rec_num, int64_t cap_mem_size);
   Status ExportRecords(FlatRecord* flat_rec);
+  void EvictRecords();
   void RemoveLRU();
   std::vector<std::string> GetKeys();
 
@@ -374,6 +375,7 @@ void CacheSlot::ProcessImpl(
             last_ = new_ptr;
           }
           eff_data_size_ += diff_size;
+          EvictRecords();
         }
       }
       return;
@@ -405,9 +407,7 @@ void CacheSlot::ProcessImpl(
     last_ = new_ptr;
     num_records_++;
     eff_data_size_ += key.size() + new_value.size();
-    if (num_records_ > cap_rec_num_ || GetMemoryUsageImpl() > cap_mem_size_) {
-      RemoveLRU();
-    }
+    EvictRecords();
   }
 }
 
@@ -513,27 +513,19 @@ void CacheSlot::Rebuild(int64_t cap_rec_num, int64_t cap_mem_size) {
   last_ = nullptr;
   while (ptr != nullptr) {
     char* next = CacheRecord::GetNext(ptr);
-    if (num_records_ < cap_rec_num_ && GetMemoryUsageImpl() < cap_mem_size_) {
-      CacheRecord rec;
-      rec.Deserialize(ptr);
-      const std::string_view key(rec.key_ptr, rec.key_size);
-      const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      const int32_t bucket_index = hash % num_buckets_;
-      CacheRecord::SetChild(ptr, buckets_[bucket_index]);
-      buckets_[bucket_index] = ptr;
-      num_records_++;
-      eff_data_size_ += rec.key_size + rec.value_size;
-      last_ = ptr;
-    } else {
-      xfree(ptr);
-    }
+    CacheRecord rec;
+    rec.Deserialize(ptr);
+    const std::string_view key(rec.key_ptr, rec.key_size);
+    const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
+    const int32_t bucket_index = hash % num_buckets_;
+    CacheRecord::SetChild(ptr, buckets_[bucket_index]);
+    buckets_[bucket_index] = ptr;
+    num_records_++;
+    eff_data_size_ += rec.key_size + rec.value_size;
+    last_ = ptr;
     ptr = next;
   }
-  if (last_ == nullptr) {
-    first_ = nullptr;
-  } else {
-    CacheRecord::SetNext(last_, nullptr);
-  }
+  EvictRecords();
 }
 
 Status CacheSlot::ExportRecords(FlatRecord* flat_rec) {
@@ -555,6 +547,13 @@ Status CacheSlot::ExportRecords(FlatRecord* flat_rec) {
   return Status(Status::SUCCESS);
 }
 
+void CacheSlot::EvictRecords() {
+  while (num_records_ > 0 &&
+         (num_records_ > cap_rec_num_ || GetMemoryUsageImpl() > cap_mem_size_)) {
+    RemoveLRU();
+  }
+}
+
 void CacheSlot::RemoveLRU() {
   CacheRecord first_rec;
   first_rec.Deserialize(first_);
-- 
2.43.0


From 42370a9386f195d0edd1d74bf3c4abd198260fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:30 +0000
Subject: [PATCH 019/106] fix: CacheDBM::ProcessFirst and ProcessEach process
 records removed by other threads

---
 tkrzw_dbm_cache.cc | 70 ++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 39 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 5160c53..fc0809b 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -412,59 +412,51 @@ void CacheSlot::ProcessImpl(
 }
 
 bool CacheSlot::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
+  std::lock_guard<SpinMutex> lock(mutex_);
+  char* ptr = first_;
+  if (ptr == nullptr) {
+    return false;
+  }
+  CacheRecord rec;
+  rec.Deserialize(ptr);
   if (writable) {
-    bool hit = false;
-    std::string key;
-    {
-      std::lock_guard<SpinMutex> lock(mutex_);
-      char* ptr = first_;
-      if (ptr != nullptr) {
-        CacheRecord rec;
-        rec.Deserialize(ptr);
-        key = std::string(rec.key_ptr, rec.key_size);
-        hit = true;
-      }
-    }
-    if (hit) {
-      const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      Process(key, hash, proc, true);
-      return true;
-    }
+    const std::string key(rec.key_ptr, rec.key_size);
+    ProcessImpl(key, PrimaryHash(key, UINT64MAX) >> 8, proc, true);
   } else {
-    std::lock_guard<SpinMutex> lock(mutex_);
-    char* ptr = first_;
-    if (ptr != nullptr) {
-      CacheRecord rec;
-      rec.Deserialize(ptr);
-      const std::string_view key(rec.key_ptr, rec.key_size);
-      const std::string_view value(rec.value_ptr, rec.value_size);
-      proc->ProcessFull(key, value);
-      return true;
-    }
+    const std::string_view key(rec.key_ptr, rec.key_size);
+    const std::string_view value(rec.value_ptr, rec.value_size);
+    proc->ProcessFull(key, value);
   }
-  return false;
+  return true;
 }
 
 void CacheSlot::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
+  // Records evicted by growth of others are skipped.
+  class ProcWrapper final : public DBM::RecordProcessor {
+   public:
+    explicit ProcWrapper(DBM::RecordProcessor* proc) : proc_(proc) {}
+    std::string_view ProcessFull(std::string_view key, std::string_view value) override {
+      return proc_->ProcessFull(key, value);
+    }
+   private:
+    DBM::RecordProcessor* proc_;
+  } proc_wrapper(proc);
+  std::lock_guard<SpinMutex> lock(mutex_);
   if (writable) {
     std::vector<std::string> keys;
     keys.reserve(num_records_);
-    {
-      std::lock_guard<SpinMutex> lock(mutex_);
-      char* ptr = first_;
-      while (ptr != nullptr) {
-        CacheRecord rec;
-        rec.Deserialize(ptr);
-        keys.emplace_back(std::string(rec.key_ptr, rec.key_size));
-        ptr = rec.next;
-      }
+    char* ptr = first_;
+    while (ptr != nullptr) {
+      CacheRecord rec;
+      rec.Deserialize(ptr);
+      keys.emplace_back(std::string(rec.key_ptr, rec.key_size));
+      ptr = rec.next;
     }
     for (const auto& key : keys) {
       const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      Process(key, hash, proc, true);
+      ProcessImpl(key, hash, &proc_wrapper, true);
     }
   } else {
-    std::lock_guard<SpinMutex> lock(mutex_);
     char* ptr = first_;
     while (ptr != nullptr) {
       CacheRecord rec;
-- 
2.43.0


From 0c1b188289ae9cfe71f6bed6d7e7378ee8753d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:05 +0000
Subject: [PATCH 020/106] fix: iterators of a closed PolyDBM crash

---
 tkrzw_dbm_poly.cc | 6 +++---
 tkrzw_dbm_poly.h  | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index b147305..71e7df6 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -558,7 +558,7 @@ Status PolyDBM::OpenAdvanced(
   if (status != Status::SUCCESS) {
     ulog_.reset(nullptr);
     ulog_mq_.reset(nullptr);
-    dbm_.reset(nullptr);
+    dbm_.reset();
     return status;
   }
   if (ulog_ != nullptr) {
@@ -583,7 +583,7 @@ Status PolyDBM::Close() {
     status |= dbm_->Close();
   }
   open_ = false;
-  dbm_.reset(nullptr);
+  dbm_.reset();
   return status;
 }
 
@@ -842,7 +842,7 @@ std::unique_ptr<DBM::Iterator> PolyDBM::MakeIterator() {
   if (dbm_ == nullptr) {
     return std::make_unique<NoopIterator>();
   }
-  std::unique_ptr<PolyDBM::Iterator> iter(new PolyDBM::Iterator(dbm_->MakeIterator()));
+  std::unique_ptr<PolyDBM::Iterator> iter(new PolyDBM::Iterator(dbm_->MakeIterator(), dbm_));
   return iter;
 }
 
diff --git a/tkrzw_dbm_poly.h b/tkrzw_dbm_poly.h
index e3fc6a8..939eb65 100644
--- a/tkrzw_dbm_poly.h
+++ b/tkrzw_dbm_poly.h
@@ -232,8 +232,11 @@ class PolyDBM final : public ParamDBM {
     }
 
    private:
-    explicit Iterator(std::unique_ptr<DBM::Iterator> iter) : iter_(std::move(iter)) {}
+    Iterator(std::unique_ptr<DBM::Iterator> iter, std::shared_ptr<DBM> dbm)
+        : dbm_(std::move(dbm)), iter_(std::move(iter)) {}
 
+    /** The internal database, kept alive for the internal iterator. */
+    std::shared_ptr<DBM> dbm_;
     /** The internal iterator object. */
     std::unique_ptr<DBM::Iterator> iter_;
   };
@@ -629,7 +632,7 @@ class PolyDBM final : public ParamDBM {
 
  private:
   /** The internal database object. */
-  std::unique_ptr<DBM> dbm_;
+  std::shared_ptr<DBM> dbm_;
   /** The owned message queue for the update logger. */
   std::unique_ptr<MessageQueue> ulog_mq_;
   /** The owned update logger. */
-- 
2.43.0


From d253dd415c356368d2915070920dd2f8abdac8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:48 +0000
Subject: [PATCH 021/106] fix: tree iterators after Jump to a missing key are
 not at the lower bound record

---
 tkrzw_dbm_baby.cc |  6 +++++-
 tkrzw_dbm_tree.cc | 23 +++++++++++++++--------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 7dcff20..b1d0501 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1172,7 +1172,11 @@ Status BabyDBMIteratorImpl::Jump(std::string_view key) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
   ClearPosition();
   SetPositionWithKey(nullptr, key);
-  return Status(Status::SUCCESS);
+  Status status = SyncPosition(key);
+  if (status == Status::NOT_FOUND_ERROR) {
+    status.Set(Status::SUCCESS);
+  }
+  return status;
 }
 
 Status BabyDBMIteratorImpl::JumpLower(std::string_view key, bool inclusive) {
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 13e62c5..413ac6d 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2172,7 +2172,12 @@ Status TreeDBMIteratorImpl::Jump(std::string_view key) {
   }
   ClearPosition();
   SetPositionWithKey(0, key);
-  return Status(Status::SUCCESS);
+  Status status = SyncPosition(key);
+  if (status == Status::NOT_FOUND_ERROR) {
+    status.Set(Status::SUCCESS);
+  }
+  status |= dbm_->AdjustCaches();
+  return status;
 }
 
 Status TreeDBMIteratorImpl::JumpLower(std::string_view key, bool inclusive) {
@@ -2441,13 +2446,15 @@ Status TreeDBMIteratorImpl::SyncPosition(std::string_view key) {
   TreeRecordOnStack search_stack(key);
   const TreeRecord* search_rec = search_stack.record;
   bool hit = false;
-  std::shared_lock<SpinSharedMutex> lock(node->mutex);
-  auto& records = node->records;
-  auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-  if (it != records.end()) {
-    TreeRecord* rec = *it;
-    SetPositionWithKey(node->id, rec->GetKey());
-    hit = true;
+  {
+    std::shared_lock<SpinSharedMutex> lock(node->mutex);
+    auto& records = node->records;
+    auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
+    if (it != records.end()) {
+      TreeRecord* rec = *it;
+      SetPositionWithKey(node->id, rec->GetKey());
+      hit = true;
+    }
   }
   if (!hit) {
     int64_t leaf_id = node->next_id;
-- 
2.43.0


From 618eb66a394ea1e79e4c28f529893294a4dd9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:48 +0000
Subject: [PATCH 022/106] fix: ShardDBM iterators return removed, duplicated or
 misordered records

---
 tkrzw_dbm_shard.cc | 145 +++++++++++++++++++++++++++++----------------
 tkrzw_dbm_shard.h  |  15 +++++
 2 files changed, 110 insertions(+), 50 deletions(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index a86bc1b..cb77659 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -630,18 +630,21 @@ DBM* ShardDBM::GetInternalDBM() const {
 }
 
 ShardDBM::Iterator::Iterator(std::vector<std::shared_ptr<PolyDBM>>* dbms)
-    : slots_(), heap_(), comp_(nullptr), asc_(false) {
+    : slots_(), heap_(), comp_(nullptr), asc_(false), ordered_(false) {
   slots_.resize(dbms->size());
   for (int32_t i = 0; i < static_cast<int32_t>(dbms->size()); i++) {
     slots_[i].iter = (*dbms)[i]->MakeIterator().release();
   }
-  const auto* dbm = dbms->front()->GetInternalDBM();
-  const auto& dbm_type = dbm->GetType();
-  if (dbm_type == typeid(TreeDBM)) {
-    comp_ = dynamic_cast<const TreeDBM*>(dbm)->GetKeyComparator();
-  }
-  if (dbm_type == typeid(BabyDBM)) {
-    comp_ = dynamic_cast<const BabyDBM*>(dbm)->GetKeyComparator();
+  if (!dbms->empty()) {
+    const auto* dbm = dbms->front()->GetInternalDBM();
+    const auto& dbm_type = dbm->GetType();
+    if (dbm_type == typeid(TreeDBM)) {
+      comp_ = dynamic_cast<const TreeDBM*>(dbm)->GetKeyComparator();
+    }
+    if (dbm_type == typeid(BabyDBM)) {
+      comp_ = dynamic_cast<const BabyDBM*>(dbm)->GetKeyComparator();
+    }
+    ordered_ = dbm->IsOrdered();
   }
   if (comp_ == nullptr) {
     comp_ = LexicalKeyComparator;
@@ -663,7 +666,7 @@ Status ShardDBM::Iterator::First() {
     }
   }
   for (auto& slot : slots_) {
-    const Status status = slot.iter->Get(&slot.key, &slot.value);
+    const Status status = ReadSlot(&slot);
     if (status == Status::SUCCESS) {
       heap_.emplace_back(&slot);
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
@@ -685,7 +688,7 @@ Status ShardDBM::Iterator::Last() {
     }
   }
   for (auto& slot : slots_) {
-    const Status status = slot.iter->Get(&slot.key, &slot.value);
+    const Status status = ReadSlot(&slot);
     if (status == Status::SUCCESS) {
       heap_.emplace_back(&slot);
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, false));
@@ -718,6 +721,9 @@ Status ShardDBM::Iterator::Jump(std::string_view key) {
     }
   }
   asc_ = true;
+  if (heap_.empty() && !ordered_) {
+    return Status(Status::NOT_FOUND_ERROR);
+  }
   return Status(Status::SUCCESS);
 }
 
@@ -784,7 +790,7 @@ Status ShardDBM::Iterator::Next() {
   auto* slot = heap_.back();
   Status status = slot->iter->Next();
   if (status == Status::SUCCESS) {
-    status = slot->iter->Get(&slot->key, &slot->value);
+    status = ReadSlot(slot);
   }
   if (status == Status::SUCCESS) {
     std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
@@ -814,7 +820,7 @@ Status ShardDBM::Iterator::Previous() {
   auto* slot = heap_.back();
   Status status = slot->iter->Previous();
   if (status == Status::SUCCESS) {
-    status = slot->iter->Get(&slot->key, &slot->value);
+    status = ReadSlot(slot);
   }
   if (status == Status::SUCCESS) {
     std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, false));
@@ -828,47 +834,60 @@ Status ShardDBM::Iterator::Previous() {
 }
 
 Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
-  if (heap_.empty()) {
-    return Status(Status::NOT_FOUND_ERROR);
-  }
-  auto* slot = heap_.front();
   class Checker : public DBM::RecordProcessor {
    public:
-    explicit Checker(RecordProcessor* proc) : proc_(proc), removed_(false)  {}
+    Checker(RecordProcessor* proc, std::string_view key)
+        : proc_(proc), key_(key), done_(false), removed_(false) {}
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
+      if (key != key_) {
+        return NOOP;
+      }
+      done_ = true;
       const std::string_view rv = proc_->ProcessFull(key, value);
       if (rv.data() == REMOVE.data()) {
         removed_ = true;
       }
       return rv;
     }
-    std::string_view ProcessEmpty(std::string_view key) override {
-      return proc_->ProcessEmpty(key);
+    bool IsDone() const {
+      return done_;
     }
     bool HasRemoved() const {
       return removed_;
     }
    private:
     DBM::RecordProcessor* proc_;
+    std::string_view key_;
+    bool done_;
     bool removed_;
-  } checker(proc);
-  const Status status = slot->iter->Process(&checker, writable);
-  if (status == Status::SUCCESS && writable && checker.HasRemoved()) {
-    std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    slot = heap_.back();
-    const Status get_status = slot->iter->Get(&slot->key, &slot->value);
-    if (get_status == Status::SUCCESS) {
-      std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    } else {
-      heap_.pop_back();
+  };
+  while (true) {
+    Status status = SyncFront();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+    auto* slot = heap_.front();
+    const std::string key = slot->key;
+    Checker checker(proc, key);
+    status = slot->iter->Process(&checker, writable);
+    if (!checker.IsDone() && (status == Status::SUCCESS || status == Status::NOT_FOUND_ERROR)) {
+      // The record has been removed by another thread.
+      continue;
+    }
+    if (status == Status::SUCCESS && writable && checker.HasRemoved()) {
+      const Status sync_status = SyncFront();
+      if (sync_status != Status::NOT_FOUND_ERROR) {
+        status |= sync_status;
+      }
     }
+    return status;
   }
-  return status;
 }
 
 Status ShardDBM::Iterator::Get(std::string* key, std::string* value) {
-  if (heap_.empty()) {
-    return Status(Status::NOT_FOUND_ERROR);
+  const Status status = SyncFront();
+  if (status != Status::SUCCESS) {
+    return status;
   }
   auto* slot = heap_.front();
   if (key != nullptr) {
@@ -882,34 +901,60 @@ Status ShardDBM::Iterator::Get(std::string* key, std::string* value) {
 
 Status ShardDBM::Iterator::Set(
     std::string_view value, std::string* old_key, std::string* old_value) {
-  if (heap_.empty()) {
-    return Status(Status::NOT_FOUND_ERROR);
-  }
-  auto* slot = heap_.front();
-  const Status status = slot->iter->Set(value, old_key, old_value);
-  if (status == Status::SUCCESS) {
-    slot->value = value;
-  }
-  return status;
+  return DBM::Iterator::Set(value, old_key, old_value);
 }
 
 Status ShardDBM::Iterator::Remove(std::string* old_key, std::string* old_value) {
-  if (heap_.empty()) {
-    return Status(Status::NOT_FOUND_ERROR);
+  return DBM::Iterator::Remove(old_key, old_value);
+}
+
+Status ShardDBM::Iterator::ReadSlot(ShardSlot* slot) {
+  while (true) {
+    Status status = slot->iter->Get(&slot->key, &slot->value);
+    if (status != Status::NOT_FOUND_ERROR) {
+      return status;
+    }
+    // Skips the record if it has been removed after being listed.
+    status = slot->iter->Next();
+    if (status != Status::SUCCESS) {
+      return status;
+    }
   }
-  auto* slot = heap_.front();
-  const Status status = slot->iter->Remove(old_key, old_value);
-  if (status == Status::SUCCESS) {
+}
+
+Status ShardDBM::Iterator::SyncFront() {
+  while (!heap_.empty()) {
+    auto* slot = heap_.front();
+    const std::string old_key = slot->key;
+    std::string key, value;
+    Status status = slot->iter->Get(&key, &value);
+    if (status == Status::SUCCESS && key == old_key) {
+      slot->value = std::move(value);
+      return Status(Status::SUCCESS);
+    }
+    if (status != Status::SUCCESS && status != Status::NOT_FOUND_ERROR) {
+      return status;
+    }
+    // The record has been removed so that the next one of all shards is looked for.
+    if (!asc_) {
+      status = Jump(old_key);
+      if (status != Status::SUCCESS) {
+        return status;
+      }
+      continue;
+    }
     std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    slot = heap_.back();
-    const Status get_status = slot->iter->Get(&slot->key, &slot->value);
-    if (get_status == Status::SUCCESS) {
+    status = ReadSlot(slot);
+    if (status == Status::SUCCESS) {
       std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
     } else {
       heap_.pop_back();
+      if (status != Status::NOT_FOUND_ERROR) {
+        return status;
+      }
     }
   }
-  return status;
+  return Status(Status::NOT_FOUND_ERROR);
 }
 
 Status ShardDBM::GetNumberOfShards(const std::string& path, int32_t* num_shards) {
diff --git a/tkrzw_dbm_shard.h b/tkrzw_dbm_shard.h
index 35ac034..87ac041 100644
--- a/tkrzw_dbm_shard.h
+++ b/tkrzw_dbm_shard.h
@@ -215,6 +215,19 @@ class ShardDBM final : public ParamDBM {
      */
     explicit Iterator(std::vector<std::shared_ptr<PolyDBM>>* dbms);
 
+    /**
+     * Reads the current record of a slot, skipping removed ones.
+     * @param slot The shard slot.
+     * @return The result status.
+     */
+    Status ReadSlot(ShardSlot* slot);
+
+    /**
+     * Reflects the current state of the record of the front slot.
+     * @return The result status.
+     */
+    Status SyncFront();
+
     /** The shard slots. */
     std::vector<ShardSlot> slots_;
     /** The heap to get the mimimum record. */
@@ -223,6 +236,8 @@ class ShardDBM final : public ParamDBM {
     KeyComparator comp_;
     /** Whether the oder is ascending. */
     bool asc_;
+    /** Whether the databases are ordered. */
+    bool ordered_;
   };
 
   /**
-- 
2.43.0


From a31f1fa7571809e4cca11996e5888b16e6c14f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 023/106] fix: PolyDBM ignores LexicalCaseKeyComparator and
 unknown comparator names

---
 tkrzw_dbm_poly.cc  |  8 ++++----
 tkrzw_dbm_shard.cc | 26 ++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index 71e7df6..f1406d8 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -95,7 +95,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
   if (lower_name == "lexicalkeycomparator" || lower_name == "lexical") {
     return LexicalKeyComparator;
   }
-  if (lower_name == "lexicalCasekeycomparator" || lower_name == "lexicalcase") {
+  if (lower_name == "lexicalcasekeycomparator" || lower_name == "lexicalcase") {
     return LexicalCaseKeyComparator;
   }
   if (lower_name == "decimalkeycomparator" || lower_name == "decimal") {
@@ -116,7 +116,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
   if (lower_name == "pairlexicalkeycomparator" || lower_name == "pairlexical") {
     return PairLexicalKeyComparator;
   }
-  if (lower_name == "pairlexicalCasekeycomparator" || lower_name == "pairlexicalcase") {
+  if (lower_name == "pairlexicalcasekeycomparator" || lower_name == "pairlexicalcase") {
     return PairLexicalCaseKeyComparator;
   }
   if (lower_name == "pairdecimalkeycomparator" || lower_name == "pairdecimal") {
@@ -405,9 +405,9 @@ Status PolyDBM::OpenAdvanced(
       return Status(Status::INVALID_ARGUMENT_ERROR, "unknown File class");
     }
     TreeDBM::TuningParameters tuning_params;
+    const std::string comp_name = SearchMap(mod_params, "key_comparator", "");
     SetTreeTuningParams(&mod_params, &tuning_params);
-    if (!SearchMap(mod_params, "key_comparator", "").empty() &&
-        tuning_params.key_comparator == nullptr) {
+    if (!comp_name.empty() && tuning_params.key_comparator == nullptr) {
       return Status(Status::INVALID_ARGUMENT_ERROR, "unsupported key comparator");
     }
     if (!mod_params.empty()) {
diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index cb77659..17fad83 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -830,6 +830,32 @@ Status ShardDBM::Iterator::Previous() {
       return status;
     }
   }
+  while (!heap_.empty()) {
+    slot = heap_.front();
+    std::string key;
+    status = slot->iter->Get(&key);
+    if (status == Status::SUCCESS && key == slot->key) {
+      break;
+    }
+    if (status != Status::SUCCESS && status != Status::NOT_FOUND_ERROR) {
+      return status;
+    }
+    // Skips the record if it has been removed after being listed.
+    std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, false));
+    const std::string old_key = slot->key;
+    status = slot->iter->JumpLower(old_key);
+    if (status == Status::SUCCESS) {
+      status = slot->iter->Get(&slot->key, &slot->value);
+    }
+    if (status == Status::SUCCESS) {
+      std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, false));
+    } else {
+      heap_.pop_back();
+      if (status != Status::NOT_FOUND_ERROR) {
+        return status;
+      }
+    }
+  }
   return Status(Status::SUCCESS);
 }
 
-- 
2.43.0


From 059ead1f2dc4cbfdf56ae93deee8fe6a44788be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 024/106] fix: PositionalParallelFile loses concurrent writes
 to the same block

---
 tkrzw_file_pos.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 0d4b8ab..f666208 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -104,6 +104,7 @@ class PositionalParallelFileImpl final {
   double alloc_inc_factor_;
   std::unique_ptr<PageCache> page_cache_;
   std::mutex mutex_;
+  std::mutex block_mutex_;
 };
 
 PositionalParallelFileImpl::PositionalParallelFileImpl()
@@ -112,7 +113,7 @@ PositionalParallelFileImpl::PositionalParallelFileImpl()
       block_size_(1), access_options_(0),
       alloc_init_size_(File::DEFAULT_ALLOC_INIT_SIZE),
       alloc_inc_factor_(File::DEFAULT_ALLOC_INC_FACTOR),
-      page_cache_(nullptr), mutex_() {}
+      page_cache_(nullptr), mutex_(), block_mutex_() {}
 
 PositionalParallelFileImpl::~PositionalParallelFileImpl() {
   if (fd_ >= 0) {
@@ -630,6 +631,8 @@ Status PositionalParallelFileImpl::WriteImpl(int64_t off, const char* buf, size_
   const int64_t off_rem = off % block_size_;
   const int64_t end_rem = end_position % block_size_;
   if (off_rem > 0 || end_rem > 0) {
+    // Reading, modifying, and writing blocks shared with other records must be serialized.
+    std::lock_guard<std::mutex> lock(block_mutex_);
     const int64_t mod_off = off - off_rem;
     const int64_t end_len = end_rem > 0 ? block_size_ - end_rem : 0;
     const int64_t mod_end = end_position + end_len;
-- 
2.43.0


From d432dc3071f5f9325fa7b10044cc3f508b271846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 025/106] fix: HashDBM::Rebuild races with operations reading
 the file and the settings

---
 tkrzw_dbm_hash.cc | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 0a4b56b..02b23d5 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -176,9 +176,9 @@ class HashDBMImpl final {
   Status ValidateRecordsImpl(int64_t record_base, int64_t end_offset,
                              int64_t* null_end_offset, int64_t* count, int64_t* eff_data_size);
 
-  bool open_;
-  bool writable_;
-  bool healthy_;
+  std::atomic_bool open_;
+  std::atomic_bool writable_;
+  std::atomic_bool healthy_;
   bool auto_restored_;
   std::string path_;
   int32_t cyclic_magic_;
@@ -191,7 +191,7 @@ class HashDBMImpl final {
   int32_t offset_width_;
   int32_t align_pow_;
   int32_t closure_flags_;
-  int64_t num_buckets_;
+  std::atomic_int64_t num_buckets_;
   std::atomic_int64_t num_records_;
   std::atomic_int64_t eff_data_size_;
   int64_t file_size_;
@@ -630,6 +630,7 @@ Status HashDBMImpl::GetFileSize(int64_t* size) {
   if (!open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
+  ScopedHashLock record_lock(record_mutex_, false);
   *size = file_->GetSizeSimple();
   return Status(Status::SUCCESS);
 }
@@ -648,6 +649,7 @@ Status HashDBMImpl::GetTimestamp(double* timestamp) {
   if (!open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
+  ScopedHashLock record_lock(record_mutex_, false);
   *timestamp = timestamp_ / 1000000.0;
   return Status(Status::SUCCESS);
 }
@@ -720,6 +722,7 @@ Status HashDBMImpl::ShouldBeRebuilt(bool* tobe) {
     }
     rebuild_mutex_.unlock();
   }
+  ScopedHashLock record_lock(record_mutex_, false);
   const int64_t record_section_size = file_->GetSizeSimple() - record_base_;
   const int64_t min_record_size = sizeof(uint8_t) + offset_width_ + sizeof(uint8_t) * 3;
   const int64_t total_record_size = eff_data_size_.load() + min_record_size * num_records_.load();
@@ -768,13 +771,14 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
 
 std::vector<std::pair<std::string, std::string>> HashDBMImpl::Inspect() {
   std::shared_lock<SpinSharedMutex> lock(mutex_);
+  ScopedHashLock record_lock(record_mutex_, false);
   std::vector<std::pair<std::string, std::string>> meta;
   auto Add = [&](const std::string& name, const std::string& value) {
     meta.emplace_back(std::make_pair(name, value));
   };
   Add("class", "HashDBM");
   if (open_) {
-    Add("healthy", ToString(healthy_));
+    Add("healthy", ToString(healthy_.load()));
     Add("auto_restored", ToString(auto_restored_));
     Add("path", path_);
     Add("cyclic_magic", ToString(static_cast<uint8_t>(cyclic_magic_)));
@@ -784,7 +788,7 @@ std::vector<std::pair<std::string, std::string>> HashDBMImpl::Inspect() {
     Add("offset_width", ToString(offset_width_));
     Add("align_pow", ToString(align_pow_));
     Add("closure_flags", ToString(closure_flags_));
-    Add("num_buckets", ToString(num_buckets_));
+    Add("num_buckets", ToString(num_buckets_.load()));
     Add("num_records", ToString(num_records_.load()));
     Add("eff_data_size", ToString(eff_data_size_.load()));
     Add("file_size", ToString(file_->GetSizeSimple()));
@@ -854,6 +858,7 @@ bool HashDBMImpl::IsAutoRestored() {
 
 std::unique_ptr<DBM> HashDBMImpl::MakeDBM() {
   std::shared_lock<SpinSharedMutex> lock(mutex_);
+  ScopedHashLock record_lock(record_mutex_, false);
   return std::make_unique<HashDBM>(file_->MakeFile());
 }
 
@@ -884,6 +889,7 @@ int32_t HashDBMImpl::GetDatabaseType() {
   if (!open_) {
     return -1;
   }
+  ScopedHashLock record_lock(record_mutex_, false);
   return db_type_;
 }
 
@@ -904,6 +910,7 @@ std::string HashDBMImpl::GetOpaqueMetadata() {
   if (!open_) {
     return "";
   }
+  ScopedHashLock record_lock(record_mutex_, false);
   return opaque_;
 }
 
@@ -959,6 +966,7 @@ HashDBM::UpdateMode HashDBMImpl::GetUpdateMode() {
   if (!open_) {
     return HashDBM::UPDATE_DEFAULT;
   }
+  ScopedHashLock record_lock(record_mutex_, false);
   HashDBM::UpdateMode mode = HashDBM::UPDATE_DEFAULT;
   if (static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE)  {
     mode = HashDBM::UPDATE_IN_PLACE;
@@ -984,6 +992,7 @@ Status HashDBMImpl::SetUpdateModeAppending() {
 Status HashDBMImpl::ImportFromFileForward(
     const std::string& path, bool skip_broken_records,
     int64_t record_base, int64_t end_offset) {
+  std::unique_ptr<File> file;
   {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     if (!open_) {
@@ -995,8 +1004,9 @@ Status HashDBMImpl::ImportFromFileForward(
     if (!healthy_) {
       return Status(Status::PRECONDITION_ERROR, "not healthy database");
     }
+    ScopedHashLock record_lock(record_mutex_, false);
+    file = file_->MakeFile();
   }
-  auto file = file_->MakeFile();
   Status status = file->Open(path, false, File::OPEN_NO_LOCK);
   if (status != Status::SUCCESS) {
     return status;
@@ -1028,6 +1038,7 @@ Status HashDBMImpl::ImportFromFileBackward(
     const std::string& path, bool skip_broken_records,
     int64_t record_base, int64_t end_offset) {
   std::string offset_path, dead_path;
+  std::unique_ptr<File> file;
   {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     if (!open_) {
@@ -1039,10 +1050,11 @@ Status HashDBMImpl::ImportFromFileBackward(
     if (!healthy_) {
       return Status(Status::PRECONDITION_ERROR, "not healthy database");
     }
+    ScopedHashLock record_lock(record_mutex_, false);
+    file = file_->MakeFile();
     offset_path = path_ + ".tmp.offset";
     dead_path = path_ + ".tmp.dead";
   }
-  auto file = file_->MakeFile();
   Status status = file->Open(path, false, File::OPEN_NO_LOCK);
   if (status != Status::SUCCESS) {
     return status;
@@ -1302,14 +1314,16 @@ Status HashDBMImpl::SaveMetadata(bool finish) {
 }
 
 Status HashDBMImpl::LoadMetadata() {
+  int64_t num_buckets = num_buckets_.load();
   int64_t num_records = 0;
   int64_t eff_data_size = 0;
   const Status status = HashDBM::ReadMetadata(
       file_.get(), &cyclic_magic_, &pkg_major_version_, &pkg_minor_version_,
       &static_flags_, &offset_width_, &align_pow_,
-      &closure_flags_, &num_buckets_, &num_records,
+      &closure_flags_, &num_buckets, &num_records,
       &eff_data_size, &file_size_, &timestamp_,
       &db_type_, &opaque_);
+  num_buckets_.store(num_buckets);
   if (status != Status::SUCCESS) {
     return status;
   }
@@ -1991,7 +2005,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
   }
   end_offset = std::min(end_offset, file->GetSizeSimple());
   const int64_t num_offsets = offset_file->GetSizeSimple() / offset_width_;
-  const int64_t dead_num_buckets = std::min(num_offsets, num_buckets_);
+  const int64_t dead_num_buckets = std::min(num_offsets, num_buckets_.load());
   HashDBM::TuningParameters dead_tuning_params;
   dead_tuning_params.offset_width = offset_width;
   dead_tuning_params.align_pow = 0;
-- 
2.43.0


From 4d787b04f70da24196726144a6af6a8975b101ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 026/106] fix: TinyDBM::ProcessEach and ProcessFirst race with
 updates

---
 tkrzw_dbm_tiny.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index c05e1ca..66339a1 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -326,6 +326,7 @@ Status TinyDBMImpl::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
     }
   } else {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
+    ScopedHashLock record_lock(record_mutex_, false);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
       char* ptr = buckets_[bucket_index];
@@ -358,6 +359,7 @@ Status TinyDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
   } else {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
+    ScopedHashLock record_lock(record_mutex_, false);
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
-- 
2.43.0


From e3aff4162d89586904fde869375a514863901921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:19 +0000
Subject: [PATCH 027/106] fix: HashDBM::ShouldBeRebuilt leaves the result unset
 if the database needn't be rebuilt

---
 tkrzw_dbm_hash.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 02b23d5..69b709b 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -728,12 +728,7 @@ Status HashDBMImpl::ShouldBeRebuilt(bool* tobe) {
   const int64_t total_record_size = eff_data_size_.load() + min_record_size * num_records_.load();
   const int64_t aligned_min_size = (1 << align_pow_) * num_records_.load();
   const int64_t minimum_total_size = total_record_size + aligned_min_size;
-  if (record_section_size > minimum_total_size * 2) {
-    *tobe = true;
-  }
-  if (num_records_.load() > num_buckets_) {
-    *tobe = true;
-  }
+  *tobe = record_section_size > minimum_total_size * 2 || num_records_.load() > num_buckets_;
   return Status(Status::SUCCESS);
 }
 
-- 
2.43.0


From e602d0f5eac05081e83c925e9f44b2256bfda9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:22 +0000
Subject: [PATCH 028/106] fix: HashDBM::ProcessEach returns updated records
 twice while the database is rebuilt

---
 tkrzw_dbm_hash.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 69b709b..486942f 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -515,8 +515,8 @@ Status HashDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
       return Status(Status::PRECONDITION_ERROR, "not healthy database");
     }
   }
+  ScopedHashLock record_lock(record_mutex_, writable);
   if (!writable && (static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE)) {
-    ScopedHashLock record_lock(record_mutex_, writable);
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     const int64_t end_offset = file_->GetSizeSimple();
     int64_t offset = record_base_;
@@ -550,7 +550,6 @@ Status HashDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     return Status(Status::SUCCESS);
   }
-  ScopedHashLock record_lock(record_mutex_, writable);
   proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
   for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
     int64_t current_offset = 0;
-- 
2.43.0


From c5e813d8233afa100ca739dcc998e7defc52ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:46 +0000
Subject: [PATCH 029/106] fix: TreeDBM::RebuildAdvanced races with other
 operations on the tuning parameters

---
 tkrzw_dbm_tree.cc | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 413ac6d..a53991d 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -892,17 +892,20 @@ Status TreeDBMImpl::Rebuild(
   }
   std::lock_guard<SpinMutex> rebulid_lock(rebuild_mutex_);
   const HashDBM::TuningParameters hash_params = tuning_params;
-  if (tuning_params.max_page_size > 0) {
-    max_page_size_ = tuning_params.max_page_size;
-  }
-  if (tuning_params.max_branches > 1) {
-    max_branches_ = tuning_params.max_branches;
-  }
-  if (tuning_params.max_cached_pages > 0) {
-    max_cached_pages_ = tuning_params.max_cached_pages;
-  }
-  if (tuning_params.page_update_mode != TreeDBM::PAGE_UPDATE_DEFAULT) {
-    page_update_mode_ = tuning_params.page_update_mode;
+  {
+    std::lock_guard<SpinSharedMutex> lock(mutex_);
+    if (tuning_params.max_page_size > 0) {
+      max_page_size_ = tuning_params.max_page_size;
+    }
+    if (tuning_params.max_branches > 1) {
+      max_branches_ = tuning_params.max_branches;
+    }
+    if (tuning_params.max_cached_pages > 0) {
+      max_cached_pages_ = tuning_params.max_cached_pages;
+    }
+    if (tuning_params.page_update_mode != TreeDBM::PAGE_UPDATE_DEFAULT) {
+      page_update_mode_ = tuning_params.page_update_mode;
+    }
   }
   status = hash_dbm_->RebuildAdvanced(hash_params, skip_broken_records, sync_hard);
   return status;
-- 
2.43.0


From 308eaacfa49fdb8714d80c0e3e6c358f64608d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:47 +0000
Subject: [PATCH 030/106] fix: Synchronize of the parallel files cuts off the
 data written concurrently

---
 tkrzw_file_mmap.cc | 22 ++++++++++++++++------
 tkrzw_file_pos.cc  | 35 ++++++++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 7761650..f0e2952 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -567,17 +567,27 @@ MemoryMapParallelFile::Zone::Zone(
           *status = adjust_status;
           return;
         }
-        if (file->file_size_.compare_exchange_weak(old_file_size, end_position)) {
+        file->mutex_.lock_shared();
+        if (end_position <= file->map_size_.load() &&
+            file->file_size_.compare_exchange_strong(old_file_size, end_position)) {
           break;
         }
+        file->mutex_.unlock_shared();
       }
       off = old_file_size;
     } else {
       const int64_t end_position = off + size;
-      const Status adjust_status = file->AllocateSpace(end_position);
-      if (adjust_status != Status::SUCCESS) {
-        *status = adjust_status;
-        return;
+      while (true) {
+        const Status adjust_status = file->AllocateSpace(end_position);
+        if (adjust_status != Status::SUCCESS) {
+          *status = adjust_status;
+          return;
+        }
+        file->mutex_.lock_shared();
+        if (end_position <= file->map_size_.load()) {
+          break;
+        }
+        file->mutex_.unlock_shared();
       }
       while (true) {
         int64_t old_file_size = file->file_size_.load();
@@ -596,10 +606,10 @@ MemoryMapParallelFile::Zone::Zone(
       status->Set(Status::INFEASIBLE_ERROR, "excessive offset");
       return;
     }
+    file->mutex_.lock_shared();
     size = std::min(static_cast<int64_t>(size), file->file_size_.load() - off);
   }
   file_ = file;
-  file_->mutex_.lock_shared();
   off_ = off;
   size_ = size;
 }
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index f666208..5bb9d74 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -304,7 +304,7 @@ Status PositionalParallelFileImpl::Write(int64_t off, const void* buf, size_t si
     return Status(Status::PRECONDITION_ERROR, "not writable file");
   }
   const int64_t end_position = off + size;
-  const Status status = AllocateSpace(AlignNumber(end_position, block_size_));
+  Status status = AllocateSpace(AlignNumber(end_position, block_size_));
   if (status != Status::SUCCESS) {
     return status;
   }
@@ -315,6 +315,11 @@ Status PositionalParallelFileImpl::Write(int64_t off, const void* buf, size_t si
       break;
     }
   }
+  // The space may have been released by a concurrent synchronization.
+  status = AllocateSpace(AlignNumber(end_position, block_size_));
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   return WriteImpl(off, static_cast<const char*>(buf), size);
 }
 
@@ -337,6 +342,11 @@ Status PositionalParallelFileImpl::Append(const void* buf, size_t size, int64_t*
       break;
     }
   }
+  // The space may have been released by a concurrent synchronization.
+  const Status status = AllocateSpace(AlignNumber(position + size, block_size_));
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   if (off != nullptr) {
     *off = position;
   }
@@ -404,24 +414,31 @@ Status PositionalParallelFileImpl::Synchronize(bool hard, int64_t off, int64_t s
   if (head_buffer_ != nullptr) {
     status |= PWriteSequence(fd_, 0, head_buffer_, head_buffer_size_);
   }
-  trunc_size_.store(AlignNumber(file_size_.load(), block_size_));
-  status |= TruncateFile(fd_, trunc_size_.load());
+  int64_t new_trunc_size = 0;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    do {
+      new_trunc_size = AlignNumber(file_size_.load(), block_size_);
+      trunc_size_.store(new_trunc_size);
+    } while (file_size_.load() > new_trunc_size);
+    status |= TruncateFile(fd_, new_trunc_size);
+    if (page_cache_ != nullptr) {
+      page_cache_->SetRegionSize(new_trunc_size);
+    }
+  }
   if (hard) {
     if (size == 0) {
-      size = trunc_size_;
+      size = new_trunc_size;
     }
     const int64_t end = off + size;
     off -= off % PAGE_SIZE;
     size = end - off;
-    off = std::min<int64_t>(trunc_size_, off);
-    size = std::min<int64_t>(trunc_size_ - off, size);
+    off = std::min<int64_t>(new_trunc_size, off);
+    size = std::min<int64_t>(new_trunc_size - off, size);
     if (tkrzw_fsync_range(fd_, off, size) != 0) {
       status |= GetErrnoStatus("fsync", errno);
     }
   }
-  if (page_cache_ != nullptr) {
-    page_cache_->SetRegionSize(trunc_size_.load());
-  }
   return status;
 }
 
-- 
2.43.0


From c702ace587a05a6157a626c6b54ef1e29fdb3dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:05 +0000
Subject: [PATCH 031/106] fix: ValidateRecords fails after an in-place HashDBM
 is changed to the appending mode

---
 tkrzw_dbm_hash.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 486942f..799de81 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1501,8 +1501,7 @@ Status HashDBMImpl::ProcessImpl(
             rec.SetData(HashRecord::OP_VOID, old_rec_size, "", 0, "", 0, 0);
             new_rec_size = rec.GetWholeSize();
           } else {
-            rec.SetData(old_is_set ? HashRecord::OP_SET : HashRecord::OP_ADD,
-                        old_rec_size, key.data(), key.size(),
+            rec.SetData(HashRecord::OP_ADD, old_rec_size, key.data(), key.size(),
                         new_value.data(), new_value.size(), child_offset);
             new_rec_size = rec.GetWholeSize();
           }
@@ -1535,7 +1534,7 @@ Status HashDBMImpl::ProcessImpl(
             rec.SetData(HashRecord::OP_REMOVE, 0, key.data(), key.size(), "", 0, new_child_offset);
             new_rec_size = rec.GetWholeSize();
           } else {
-            rec.SetData(old_is_set ? HashRecord::OP_SET : HashRecord::OP_ADD,
+            rec.SetData(old_is_set && !in_place ? HashRecord::OP_SET : HashRecord::OP_ADD,
                         0, key.data(), key.size(),
                         new_value.data(), new_value.size(), new_child_offset);
             new_rec_size = rec.GetWholeSize();
@@ -1549,7 +1548,7 @@ Status HashDBMImpl::ProcessImpl(
                 rec.SetData(HashRecord::OP_REMOVE, new_rec_size, key.data(), key.size(),
                             "", 0, new_child_offset);
               } else {
-                rec.SetData(HashRecord::OP_SET, new_rec_size, key.data(), key.size(),
+                rec.SetData(HashRecord::OP_ADD, new_rec_size, key.data(), key.size(),
                             new_value.data(), new_value.size(), new_child_offset);
               }
               new_offset = fb.offset;
-- 
2.43.0


From a0d12b30525722f80fa2bedf4f9285f4ab0a744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 032/106] fix: TreeDBM::MakeDBM races with Rebuild

---
 tkrzw_dbm_tree.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index a53991d..fafd951 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -1055,7 +1055,10 @@ bool TreeDBMImpl::IsAutoRestored() {
 
 std::unique_ptr<DBM> TreeDBMImpl::MakeDBM() {
   std::shared_lock<SpinSharedMutex> lock(mutex_);
-  return std::make_unique<TreeDBM>(hash_dbm_->GetInternalFile()->MakeFile());
+  // The internal file can be replaced by a concurrent rebuild.
+  const std::unique_ptr<DBM> hash_dbm = hash_dbm_->MakeDBM();
+  return std::make_unique<TreeDBM>(
+      dynamic_cast<HashDBM*>(hash_dbm.get())->GetInternalFile()->MakeFile());
 }
 
 DBM::UpdateLogger* TreeDBMImpl::GetUpdateLogger() {
-- 
2.43.0


From 91640c7edfb648c37809ef806912a9d878d440e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:36 +0000
Subject: [PATCH 033/106] fix: LinkedHashMap::operator[] overwrites the
 existing value

---
 tkrzw_containers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_containers.h b/tkrzw_containers.h
index c172040..0b6c69d 100644
--- a/tkrzw_containers.h
+++ b/tkrzw_containers.h
@@ -1330,7 +1330,7 @@ LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::find(
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
 inline VALUETYPE& LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::operator[](
     const KEYTYPE& key) {
-  return Set(key, VALUETYPE())->value;
+  return Set(key, VALUETYPE(), false)->value;
 }
 
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
-- 
2.43.0


From 18485a66582e7c02d7ff252a23ea30b7525ed134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:36 +0000
Subject: [PATCH 034/106] fix: LinkedHashMap::load_factor drops the fraction

---
 tkrzw_containers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_containers.h b/tkrzw_containers.h
index 0b6c69d..5d73787 100644
--- a/tkrzw_containers.h
+++ b/tkrzw_containers.h
@@ -1404,7 +1404,7 @@ void LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::rehash(size_t num
 
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
 float LinkedHashMap<KEYTYPE, VALUETYPE, HASHTYPE, EQUALTOTYPE>::load_factor() const {
-  return num_records_ / num_buckets_;
+  return static_cast<float>(num_records_) / num_buckets_;
 }
 
 template <typename KEYTYPE, typename VALUETYPE, typename HASHTYPE, typename EQUALTOTYPE>
-- 
2.43.0


From 607b8e045385da99273050131f448c983e5cf955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 035/106] fix: Boyer-Moore search accesses out of the table for
 the byte 0xff

---
 tkrzw_str_util.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index d0ecb00..aa10410 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -945,8 +945,8 @@ int32_t StrSearchBM(std::string_view text, std::string_view pattern) {
   if (pattern.empty()) {
     return 0;
   }
-  int32_t table[UINT8MAX];
-  for (int32_t table_index = 0; table_index < UINT8MAX; table_index++) {
+  int32_t table[UINT8MAX + 1];
+  for (int32_t table_index = 0; table_index <= UINT8MAX; table_index++) {
     table[table_index] = pattern.size();
   }
   int32_t shift = pattern.size();
@@ -1133,8 +1133,8 @@ std::vector<int32_t> StrSearchWholeBM(
     }
     return result;
   }
-  int32_t table[UINT8MAX];
-  for (int32_t table_index = 0; table_index < UINT8MAX; table_index++) {
+  int32_t table[UINT8MAX + 1];
+  for (int32_t table_index = 0; table_index <= UINT8MAX; table_index++) {
     table[table_index] = pattern.size();
   }
   int32_t shift = pattern.size();
-- 
2.43.0


From 357307e4c52252bb7c9a774f86b67a33fefed779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 036/106] fix: StrSearchZ misses matches in texts with null
 bytes

---
 tkrzw_str_util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index aa10410..9a44595 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -1011,6 +1011,9 @@ int32_t StrSearchRK(std::string_view text, std::string_view pattern) {
 }
 
 int32_t StrSearchZ(std::string_view text, std::string_view pattern) {
+  if (pattern.empty()) {
+    return 0;
+  }
   std::string concat;
   concat.reserve(pattern.size() + 1 + text.size());
   concat.append(pattern);
@@ -1043,7 +1046,7 @@ int32_t StrSearchZ(std::string_view text, std::string_view pattern) {
     }
   }
   for (size_t i = pattern.size() + 1; i < concat.size(); i++) {
-    if (z[i] == pattern.size()) {
+    if (z[i] >= pattern.size()) {
       return i - 1 - pattern.size();
     }
   }
-- 
2.43.0


From 1e730449f57b5a40161a9035414e486147010439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 037/106] fix: StrSearchBatchRK ignores the maximum for empty
 patterns

---
 tkrzw_str_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 9a44595..5a5ec7d 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -1257,8 +1257,10 @@ std::vector<std::vector<int32_t>> StrSearchBatchRK(
     const size_t pattern_size = batch_item.first;
     const auto& pattern_indices = batch_item.second;
     if (pattern_size < 1) {
+      const size_t num_results =
+          max_results > 0 ? std::min(max_results, text.size()) : text.size();
       for (const auto& pattern_index : pattern_indices) {
-        for (size_t i = 0; i < text.size(); i++) {
+        for (size_t i = 0; i < num_results; i++) {
           result[pattern_index].emplace_back(i);
         }
       }
-- 
2.43.0


From 2da5b1f687ab291b25442925059047ee4ae289fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 038/106] fix: signed overflow in StrToInt

---
 tkrzw_str_util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 5a5ec7d..9cec237 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -88,7 +88,7 @@ int64_t StrToInt(std::string_view str, int64_t defval) {
     rp++;
   }
   bool has_number = false;
-  int64_t num = 0;
+  uint64_t num = 0;
   while (rp < ep) {
     if (*rp < '0' || *rp > '9') break;
     has_number = true;
@@ -98,7 +98,7 @@ int64_t StrToInt(std::string_view str, int64_t defval) {
   if (!has_number) {
     return defval;
   }
-  return num * sign;
+  return sign < 0 ? 0 - num : num;
 }
 
 int64_t StrToIntMetric(std::string_view str, int64_t defval) {
-- 
2.43.0


From df851d962093b755b06b5018703c10b0727d3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 039/106] fix: deserialization of broken pairs, vectors, and
 maps goes out of bounds or never ends

---
 tkrzw_str_util.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 9cec237..8a37a18 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -2085,18 +2085,22 @@ void DeserializeStrPair(
   size_t step = ReadVarNum(rp, size, &first_size);
   rp += step;
   size -= step;
+  first_size = std::min<uint64_t>(first_size, size);
   *first = std::string_view(rp, first_size);
   rp += first_size;
   size -= first_size;
   uint64_t second_size = 0;
   step = ReadVarNum(rp, size, &second_size);
   rp += step;
+  size -= step;
+  second_size = std::min<uint64_t>(second_size, size);
   *second = std::string_view(rp, second_size);
 }
 
 std::string_view GetFirstFromSerializedStrPair(std::string_view serialized) {
   uint64_t first_size = 0;
   size_t step = ReadVarNum(serialized.data(), serialized.size(), &first_size);
+  first_size = std::min<uint64_t>(first_size, serialized.size() - step);
   return std::string_view(serialized.data() + step, first_size);
 }
 
@@ -2124,7 +2128,7 @@ std::vector<std::string> DeserializeStrVector(std::string_view serialized) {
     const size_t step = ReadVarNum(rp, size, &value_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(value_size)) {
+    if (step == 0 || static_cast<uint64_t>(size) < value_size) {
       break;
     }
     values.emplace_back(std::string(rp, value_size));
@@ -2181,7 +2185,7 @@ std::map<std::string, std::string> DeserializeStrMap(std::string_view serialized
     size_t step = ReadVarNum(rp, size, &key_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(key_size)) {
+    if (step == 0 || static_cast<uint64_t>(size) < key_size) {
       break;
     }
     const char* key_ptr = rp;
@@ -2191,7 +2195,7 @@ std::map<std::string, std::string> DeserializeStrMap(std::string_view serialized
     step = ReadVarNum(rp, size, &value_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(value_size)) {
+    if (step == 0 || static_cast<uint64_t>(size) < value_size) {
       break;
     }
     const char* value_ptr = rp;
-- 
2.43.0


From b1dae138344e75e458a9d67d21cfdfd9350b4853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 040/106] fix: ToString for large floating-point numbers
 overruns the buffer

---
 tkrzw_str_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 8a37a18..4bf47eb 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -443,7 +443,7 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
 }
 
 std::string ToString(double data) {
-  char buf[NUM_BUFFER_SIZE];
+  char buf[NUM_BUFFER_SIZE + std::numeric_limits<double>::max_exponent10];
   int32_t size = std::snprintf(buf, sizeof(buf), "%.6f", data);
   while (size > 0 && buf[size - 1] == '0') {
     buf[size--] = '\0';
-- 
2.43.0


From de22ee9efbdbf72258c66055f67461b646ab386c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 041/106] fix: SPrintF overruns the buffer for wide fields

---
 tkrzw_str_util.cc | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 4bf47eb..a251d45 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -351,6 +351,19 @@ uint64_t StrToIntDelta(std::string_view str, bool zigzag) {
   return num;
 }
 
+template <typename T>
+static void AppendFormatted(std::string* dest, const char* format, T value) {
+  char stack_buf[NUM_BUFFER_SIZE * 2];
+  const int32_t size = std::snprintf(stack_buf, sizeof(stack_buf), format, value);
+  if (size < static_cast<int32_t>(sizeof(stack_buf))) {
+    dest->append(stack_buf, std::max<int32_t>(0, size));
+    return;
+  }
+  std::vector<char> heap_buf(size + 1);
+  std::snprintf(heap_buf.data(), heap_buf.size(), format, value);
+  dest->append(heap_buf.data(), size);
+}
+
 void VSPrintF(std::string* dest, const char* format, va_list ap) {
   assert(dest != nullptr && format != nullptr);
   while (*format != '\0') {
@@ -374,9 +387,7 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
             if (cbsiz == 2) {
               dest->append(tmp);
             } else {
-              char tbuf[NUM_BUFFER_SIZE * 2];
-              size_t tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, tmp);
-              dest->append(tbuf, tsiz);
+              AppendFormatted(dest, cbuf, tmp);
             }
           } else {
             dest->append("(null)");
@@ -384,44 +395,31 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
           break;
         }
         case 'd': {
-          char tbuf[NUM_BUFFER_SIZE];
-          size_t tsiz = 0;
           if (lnum >= 2) {
-            tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, long long));
+            AppendFormatted(dest, cbuf, va_arg(ap, long long));
           } else if (lnum >= 1) {
-            tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, long));
+            AppendFormatted(dest, cbuf, va_arg(ap, long));
           } else {
-            tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, int));
+            AppendFormatted(dest, cbuf, va_arg(ap, int));
           }
-          dest->append(tbuf, tsiz);
           break;
         }
         case 'o': case 'u': case 'x': case 'X': case 'c': {
-          char tbuf[NUM_BUFFER_SIZE];
-          size_t tsiz = 0;
           if (lnum >= 2) {
-            tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, unsigned long long));
+            AppendFormatted(dest, cbuf, va_arg(ap, unsigned long long));
           } else if (lnum >= 1) {
-            tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, unsigned long));
+            AppendFormatted(dest, cbuf, va_arg(ap, unsigned long));
           } else {
-            tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, unsigned int));
+            AppendFormatted(dest, cbuf, va_arg(ap, unsigned int));
           }
-          dest->append(tbuf, tsiz);
           break;
         }
         case 'e': case 'E': case 'f': case 'g': case 'G': {
-          char tbuf[NUM_BUFFER_SIZE * 2];
-          size_t tsiz = 0;
           if (lnum >= 1) {
-            tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, long double));
+            AppendFormatted(dest, cbuf, va_arg(ap, long double));
           } else {
-            tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, double));
+            AppendFormatted(dest, cbuf, va_arg(ap, double));
           }
-          if (tsiz > sizeof(tbuf)) {
-            tbuf[sizeof(tbuf)-1] = '*';
-            tsiz = sizeof(tbuf);
-          }
-          dest->append(tbuf, tsiz);
           break;
         }
         case 'p': {
-- 
2.43.0


From 1ae37139200ac04c3083f20b207e1ae2addae9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 042/106] fix: StrJoin drops the delimiter after leading empty
 elements

---
 tkrzw_str_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index 12411a3..f3f063a 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -247,10 +247,12 @@ std::string IntToStrDelta(uint64_t data, bool zigzag);
 template <typename T>
 std::string StrJoin(const T& elems, std::string_view delim) {
   std::string str;
+  bool is_first = true;
   for (const auto& elem : elems) {
-    if (!str.empty()) {
+    if (!is_first) {
       str += delim;
     }
+    is_first = false;
     str += ToString(elem);
   }
   return str;
-- 
2.43.0


From 98e78e70f49387b4b9dae4729cca91b4b3bde38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 043/106] fix: overflow in the delta encoding of integer
 vectors

---
 tkrzw_str_util.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index f3f063a..c706ace 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -980,9 +980,9 @@ inline std::string SerializeIntVectorDelta(const std::vector<T>& values, bool zi
     uint64_t num = 0;
     if (zigzag) {
       if (static_cast<uint64_t>(value) > INT64MAX) {
-        num = static_cast<uint64_t>((value + 1) * -2) + 1;
+        num = ~static_cast<uint64_t>(value) * 2 + 1;
       } else {
-        num = value * 2;
+        num = static_cast<uint64_t>(value) * 2;
       }
     } else {
       num = static_cast<uint64_t>(value);
@@ -1084,7 +1084,7 @@ inline std::vector<T> DeserializeIntVectorDelta(std::string_view serialized, boo
     } while (c >= 0x80);
     if (zigzag) {
       if (num & 0x1) {
-        values.push_back(static_cast<T>((num - 1) / 2) * -1 - 1);
+        values.push_back(static_cast<T>(~(num / 2)));
       } else {
         values.push_back(static_cast<T>(num / 2));
       }
-- 
2.43.0


From 2e7055b20a1e27a608b2d3bf4e35430894b9e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:37 +0000
Subject: [PATCH 044/106] fix: SPrintF handles the z modifier and broken
 directives wrongly

---
 tkrzw_str_util.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index a251d45..e9bee9b 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -374,10 +374,13 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
       int32_t lnum = 0;
       format++;
       while (std::strchr("0123456789 .+-hlLz", *format) && *format != '\0' &&
-             cbsiz < NUM_BUFFER_SIZE - 1) {
-        if (*format == 'l' || *format == 'L') lnum++;
+             cbsiz < NUM_BUFFER_SIZE - 2) {
+        if (*format == 'l' || *format == 'L' || *format == 'z') lnum++;
         cbuf[cbsiz++] = *(format++);
       }
+      if (*format == '\0') {
+        break;
+      }
       cbuf[cbsiz++] = *format;
       cbuf[cbsiz] = '\0';
       switch (*format) {
-- 
2.43.0


From bda03d3cc0858ddc992d01f87321eeb04fac5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 045/106] fix: StrToDouble ignores the exponent after a long
 fraction

---
 tkrzw_str_util.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index e9bee9b..807ef69 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -290,13 +290,15 @@ double StrToDouble(std::string_view str, double defval) {
     rp++;
     long double fract = 0.0;
     long double base = 10;
-    while (col < 16 && rp < ep) {
+    while (rp < ep) {
       if (*rp < '0' || *rp > '9') break;
       has_number = true;
-      fract += (*rp - '0') / base;
+      if (col < 16) {
+        fract += (*rp - '0') / base;
+        col++;
+        base *= 10;
+      }
       rp++;
-      col++;
-      base *= 10;
     }
     num += fract;
   }
-- 
2.43.0


From 4384dcb732fb2ff6141358cbe08f8ea2ca756491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 046/106] fix: SearchDBMOrder returns nothing if the capacity
 is unlimited

---
 tkrzw_dbm_common_impl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_dbm_common_impl.cc b/tkrzw_dbm_common_impl.cc
index 278628e..11d839a 100644
--- a/tkrzw_dbm_common_impl.cc
+++ b/tkrzw_dbm_common_impl.cc
@@ -113,6 +113,10 @@ Status SearchDBMLambda(
 Status SearchDBMOrder(DBM* dbm, std::string_view pattern, bool upper, bool inclusive,
                       std::vector<std::string>* matched, size_t capacity) {
   assert(dbm != nullptr && matched != nullptr);
+  if (capacity == 0) {
+    capacity = SIZE_MAX;
+  }
+  matched->clear();
   auto iter = dbm->MakeIterator();
   Status status =
       upper ? iter->JumpUpper(pattern, inclusive) : iter->JumpLower(pattern, inclusive);
-- 
2.43.0


From 95a84db1711b7a4c24851a8a2e038068acb00313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:33 +0000
Subject: [PATCH 047/106] fix: LZMACompressor fails to compress large
 incompressible data

---
 tkrzw_compress.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_compress.cc b/tkrzw_compress.cc
index 016f5c7..f3c5a5e 100644
--- a/tkrzw_compress.cc
+++ b/tkrzw_compress.cc
@@ -354,7 +354,7 @@ char* LZMACompressor::Compress(const void* buf, size_t size, size_t* sp) const {
   assert(buf != nullptr && size <= MAX_MEMORY_SIZE && sp != nullptr);
   lzma_stream zs = LZMA_STREAM_INIT;
   const char* rp = (const char*)buf;
-  size_t zsiz = size + 1024;
+  size_t zsiz = size + size / 1024 + 1024;
   char* zbuf = static_cast<char*>(xmalloc(zsiz));
   char* wp = zbuf;
   zs.next_in = (const uint8_t*)rp;
-- 
2.43.0


From b770e20d22032326ab5f1e9fa88ed0e278297f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:33 +0000
Subject: [PATCH 048/106] fix: ZStdCompressor and LZ4Compressor return a freed
 region on failure

---
 tkrzw_compress.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_compress.cc b/tkrzw_compress.cc
index f3c5a5e..e7ae27f 100644
--- a/tkrzw_compress.cc
+++ b/tkrzw_compress.cc
@@ -239,7 +239,7 @@ char* ZStdCompressor::Compress(const void* buf, size_t size, size_t* sp) const {
   const size_t rsiz = ZSTD_compress(zbuf, zsiz, static_cast<const char*>(buf), size, level_);
   if (ZSTD_isError(rsiz)) {
     xfree(zbuf);
-    return zbuf;
+    return nullptr;
   }
   *sp = rsiz;
   return zbuf;
@@ -298,7 +298,7 @@ char* LZ4Compressor::Compress(const void* buf, size_t size, size_t* sp) const {
       LZ4_compress_fast(static_cast<const char*>(buf), zbuf, size, zsiz, acceleration_);
   if (rsiz < 1) {
     xfree(zbuf);
-    return zbuf;
+    return nullptr;
   }
   *sp = rsiz;
   return zbuf;
-- 
2.43.0


From e92d41907328d5ec535dbaea7f057c07f7d92304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:29 +0000
Subject: [PATCH 049/106] fix: FormatDateSimple truncates years of five digits

---
 tkrzw_time_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index fa02867..14f2014 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -101,7 +101,7 @@ size_t FormatDateSimple(char* result, int64_t wtime, int32_t td) {
   GetUniversalCalendar(static_cast<time_t>(wtime + td), &uts);
   uts.tm_year += 1900;
   uts.tm_mon += 1;
-  return std::snprintf(result, 20, "%04d/%02d/%02d %02d:%02d:%02d",
+  return std::sprintf(result, "%04d/%02d/%02d %02d:%02d:%02d",
                        uts.tm_year, uts.tm_mon, uts.tm_mday,
                        uts.tm_hour, uts.tm_min, uts.tm_sec);
 }
-- 
2.43.0


From 34570987a7b0913d4928890b1006883d133f4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:29 +0000
Subject: [PATCH 050/106] fix: FormatDateRFC1123 takes times before the epoch
 as the current time

---
 tkrzw_time_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index 14f2014..fde9596 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -217,7 +217,7 @@ size_t FormatDateW3CDTFWithFrac(char* result, double wtime, int32_t td, int32_t
 
 size_t FormatDateRFC1123(char* result, int64_t wtime, int32_t td) {
   assert(result != nullptr);
-  if (wtime < 0) {
+  if (wtime == INT64MIN) {
     wtime = GetWallTime();
   }
   if (td == INT32MIN) {
-- 
2.43.0


From 086247955608ebc00347b06e628e07a68687a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:29 +0000
Subject: [PATCH 051/106] fix: the fraction of a formatted date is broken if it
 is rounded up to one

---
 tkrzw_time_util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index fde9596..072f3f4 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -127,7 +127,7 @@ size_t FormatDateSimpleWithFrac(char* result, double wtime, int32_t td, int32_t
                         uts.tm_hour, uts.tm_min, uts.tm_sec);
   }
   char dec[16];
-  std::sprintf(dec, "%.12f", frac);
+  std::sprintf(dec, "%.12f", std::min(frac, 0.999999999999));
   char* wp = dec;
   if (*wp == '0') {
     wp++;
@@ -204,7 +204,7 @@ size_t FormatDateW3CDTFWithFrac(char* result, double wtime, int32_t td, int32_t
                         uts.tm_hour, uts.tm_min, uts.tm_sec, tzone);
   }
   char dec[16];
-  std::sprintf(dec, "%.12f", frac);
+  std::sprintf(dec, "%.12f", std::min(frac, 0.999999999999));
   char* wp = dec;
   if (*wp == '0') {
     wp++;
-- 
2.43.0


From 44afdb3a2b2f8afdc104184bba4c2a4f26daff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:29 +0000
Subject: [PATCH 052/106] fix: ParseDateStr reads past the end of the string

---
 tkrzw_time_util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index 072f3f4..89cd7ff 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -301,7 +301,7 @@ double ParseDateStr(std::string_view str) {
   if (has_num && plen == 0) {
     return wtime;
   }
-  if (has_num && plen > 0 && pv > rp && (plen > 1 || pv[1] <= ' ')) {
+  if (has_num && plen > 0) {
     if (pv[0] == 's' || pv[0] == 'S') {
       return wtime;
     }
@@ -340,7 +340,7 @@ double ParseDateStr(std::string_view str) {
       rp += 19;
       len -= 19;
       if (len > 0 && *rp == '.') {
-        frac = StrToDouble(rp, len);
+        frac = StrToDouble(std::string_view(rp, len));
         rp++;
         len--;
         while (len > 0 && (*rp >= '0' && *rp <= '9')) {
-- 
2.43.0


From f1655ab168243d5e45481c76dec1928682750eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:29 +0000
Subject: [PATCH 053/106] fix: ParseDateStr parses years before 1969 in RFC
 1123 wrongly

---
 tkrzw_time_util.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tkrzw_time_util.cc b/tkrzw_time_util.cc
index 89cd7ff..57f6943 100644
--- a/tkrzw_time_util.cc
+++ b/tkrzw_time_util.cc
@@ -417,13 +417,14 @@ double ParseDateStr(std::string_view str) {
       len--;
     }
     uts.tm_year = StrToInt(std::string_view(rp, len));
-    if (uts.tm_year >= 1969) {
-      uts.tm_year -= 1900;
-    }
+    const char* const year_rp = rp;
     while (len > 0 && *rp >= '0' && *rp <= '9') {
       rp++;
       len--;
     }
+    if (rp - year_rp >= 4) {
+      uts.tm_year -= 1900;
+    }
     while (len > 0 && *rp == ' ') {
       rp++;
       len--;
-- 
2.43.0


From 1e704d4355fb336718d99195a283e3f5e8b94013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 054/106] fix: reject reads with a negative offset or an
 overflowing range in positional and standard files

---
 tkrzw_file_pos.cc | 5 +++--
 tkrzw_file_std.cc | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 5bb9d74..9d6aa52 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -579,7 +579,8 @@ Status PositionalParallelFileImpl::AllocateSpace(int64_t min_size) {
 }
 
 Status PositionalParallelFileImpl::ReadImpl(int64_t off, char* buf, size_t size) {
-  if (static_cast<int64_t>(off + size) > file_size_.load()) {
+  const int64_t file_size = file_size_.load();
+  if (off < 0 || off > file_size || size > static_cast<size_t>(file_size - off)) {
     return Status(Status::INFEASIBLE_ERROR, "excessive size");
   }
   if (off < head_buffer_size_) {
@@ -1282,7 +1283,7 @@ Status PositionalAtomicFileImpl::AllocateSpace(int64_t min_size) {
 }
 
 Status PositionalAtomicFileImpl::ReadImpl(int64_t off, char* buf, size_t size) {
-  if (static_cast<int64_t>(off + size) > file_size_) {
+  if (off < 0 || off > file_size_ || size > static_cast<size_t>(file_size_ - off)) {
     return Status(Status::INFEASIBLE_ERROR, "excessive size");
   }
   if (off < head_buffer_size_) {
diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index d493a00..1306730 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -356,7 +356,7 @@ Status StdFileImpl::CloseImpl() {
 }
 
 Status StdFileImpl::ReadImpl(int64_t off, void* buf, size_t size) {
-  if (static_cast<int64_t>(off + size) > file_size_) {
+  if (off < 0 || off > file_size_ || size > static_cast<size_t>(file_size_ - off)) {
     return Status(Status::INFEASIBLE_ERROR, "excessive size");
   }
   file_->clear();
-- 
2.43.0


From ca621d11a165f65305f43972d7febfe2c7fad082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:47 +0000
Subject: [PATCH 055/106] fix: keep the physical size of block-aligned and
 expanded positional files without allocation factor

---
 tkrzw_file_pos.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 9d6aa52..f28d849 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -351,6 +351,9 @@ Status PositionalParallelFileImpl::Append(const void* buf, size_t size, int64_t*
     *off = position;
   }
   if (buf == nullptr) {
+    if (alloc_inc_factor_ <= 0 && size > 0) {
+      return WriteImpl(position + size - 1, "", 1);
+    }
     return Status(Status::SUCCESS);
   }
   return WriteImpl(position, static_cast<const char*>(buf), size);
@@ -369,7 +372,7 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
     page_cache_->Clear();
   }
   int64_t new_trunc_size = 0;
-  if (alloc_inc_factor_ <= 0) {
+  if (alloc_inc_factor_ <= 0 && block_size_ == 1) {
     new_trunc_size = std::max(size, alloc_init_size_);
   } else {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
@@ -560,7 +563,7 @@ Status PositionalParallelFileImpl::AllocateSpace(int64_t min_size) {
   if (min_size <= trunc_size_.load()) {
     return Status(Status::SUCCESS);
   }
-  if (alloc_inc_factor_ <= 0) {
+  if (alloc_inc_factor_ <= 0 && block_size_ == 1 && page_cache_ == nullptr) {
     trunc_size_.store(min_size);
     return Status(Status::SUCCESS);
   }
@@ -1053,6 +1056,9 @@ Status PositionalAtomicFileImpl::Append(const void* buf, size_t size, int64_t* o
     *off = position;
   }
   if (buf == nullptr) {
+    if (alloc_inc_factor_ <= 0 && size > 0) {
+      return WriteImpl(position + size - 1, "", 1);
+    }
     return Status(Status::SUCCESS);
   }
   return WriteImpl(position, static_cast<const char*>(buf), size);
@@ -1072,7 +1078,7 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
     page_cache_->Clear();
   }
   int64_t new_trunc_size = 0;
-  if (alloc_inc_factor_ <= 0) {
+  if (alloc_inc_factor_ <= 0 && block_size_ == 1) {
     new_trunc_size = std::max(size, alloc_init_size_);
   } else {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
@@ -1264,7 +1270,7 @@ Status PositionalAtomicFileImpl::AllocateSpace(int64_t min_size) {
   if (min_size <= trunc_size_) {
     return Status(Status::SUCCESS);
   }
-  if (alloc_inc_factor_ <= 0) {
+  if (alloc_inc_factor_ <= 0 && block_size_ == 1 && page_cache_ == nullptr) {
     trunc_size_ = min_size;
     return Status(Status::SUCCESS);
   }
-- 
2.43.0


From ba0870cc64dddc05ee5492241ab28f007babe15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:47 +0000
Subject: [PATCH 056/106] fix: clear the discarded part of the head buffer when
 a positional file is truncated

---
 tkrzw_file_pos.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index f28d849..8a3efd0 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -385,6 +385,9 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
   if (status == Status::SUCCESS) {
     file_size_.store(size);
     trunc_size_.store(new_trunc_size);
+    if (size < head_buffer_size_) {
+      std::memset(head_buffer_ + size, 0, head_buffer_size_ - size);
+    }
   }
   if (page_cache_ != nullptr) {
     page_cache_->SetRegionSize(trunc_size_.load());
@@ -1091,6 +1094,9 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
   if (status == Status::SUCCESS) {
     file_size_ = size;
     trunc_size_ = new_trunc_size;
+    if (size < head_buffer_size_) {
+      std::memset(head_buffer_ + size, 0, head_buffer_size_ - size);
+    }
   }
   if (page_cache_ != nullptr) {
     page_cache_->SetRegionSize(trunc_size_);
-- 
2.43.0


From b5cad0d9b8320d7e906227a9221b470cf8b2ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:16 +0000
Subject: [PATCH 057/106] fix: report the old size when a standard file is
 expanded by nothing

---
 tkrzw_file_std.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index 1306730..682f3d6 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -419,6 +419,9 @@ Status StdFileImpl::AppendImpl(const void* buf, size_t size, int64_t* off) {
 
 Status StdFileImpl::ExpandImpl(size_t inc_size, int64_t* old_size) {
   if (inc_size == 0) {
+    if (old_size != nullptr) {
+      *old_size = file_size_;
+    }
     return Status(Status::SUCCESS);
   }
   file_->clear();
-- 
2.43.0


From b35f7fa42f05abd34df415df4cfa5455789371a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 058/106] fix: extend positional files without allocation
 factor by empty writes past the end

---
 tkrzw_file_pos.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 8a3efd0..d32cba2 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -303,6 +303,11 @@ Status PositionalParallelFileImpl::Write(int64_t off, const void* buf, size_t si
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable file");
   }
+  if (size == 0 && alloc_inc_factor_ <= 0 && off > file_size_.load()) {
+    off--;
+    buf = static_cast<const void*>("");
+    size = 1;
+  }
   const int64_t end_position = off + size;
   Status status = AllocateSpace(AlignNumber(end_position, block_size_));
   if (status != Status::SUCCESS) {
@@ -1031,6 +1036,11 @@ Status PositionalAtomicFileImpl::Write(int64_t off, const void* buf, size_t size
   if (!writable_) {
     return Status(Status::PRECONDITION_ERROR, "not writable file");
   }
+  if (size == 0 && alloc_inc_factor_ <= 0 && off > file_size_) {
+    off--;
+    buf = static_cast<const void*>("");
+    size = 1;
+  }
   const int64_t end_position = off + size;
   const Status status = AllocateSpace(AlignNumber(end_position, block_size_));
   if (status != Status::SUCCESS) {
-- 
2.43.0


From b24b3ffb7e0392c133d51e434e0980cf6ec29c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:01 +0000
Subject: [PATCH 059/106] fix: use the cipher key when a hash database is
 restored automatically

---
 tkrzw_dbm_hash.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 799de81..478f5c5 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -338,7 +338,8 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
       const std::string tmp_path = path_ + ".tmp.restore";
       const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
       RemoveFile(tmp_path);
-      status = HashDBM::RestoreDatabase(path_, tmp_path, end_offset, cipher_key_);
+      status = HashDBM::RestoreDatabase(
+          path_, tmp_path, end_offset, tuning_params.cipher_key);
       if (status != Status::SUCCESS) {
         RemoveFile(tmp_path);
         return status;
-- 
2.43.0


From de6173d61652710065d1067d31b68e7e3c92fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 060/106] fix: save the free block pool before the metadata of
 a hash database is marked as closed

---
 tkrzw_dbm_hash.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 478f5c5..1c97850 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -749,6 +749,7 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (update_logger_ != nullptr) {
     status |= update_logger_->Synchronize(hard);
   }
+  status |= SaveFBP();
   if (hard) {
     status |= file_->Synchronize(true);
     status |= SaveMetadata(true);
@@ -1246,8 +1247,8 @@ Status HashDBMImpl::CloseImpl() {
   if (writable_ && healthy_) {
     file_size_ = file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    status |= SaveMetadata(true);
     status |= SaveFBP();
+    status |= SaveMetadata(true);
   }
   open_ = false;
   writable_ = false;
-- 
2.43.0


From 1b8aa95fb476b0790e0255f5772558f973606c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:56 +0000
Subject: [PATCH 061/106] fix: the key comparator is lost when a tree database
 is restored

---
 tkrzw_dbm_tree.cc | 60 +++++++++++++++++++++++++++++------------------
 tkrzw_dbm_tree.h  |  5 +++-
 2 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index fafd951..61201eb 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -442,7 +442,8 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
     const int64_t end_offset =
         tuning_params.restore_mode == HashDBM::RESTORE_SYNC ? INT64MAX : INT64MIN;
     RemoveFile(tmp_path);
-    status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key);
+    status = TreeDBM::RestoreDatabase(
+        norm_path, tmp_path, end_offset, tuning_params.cipher_key, key_comparator_);
     if (status != Status::SUCCESS) {
       RemoveFile(tmp_path);
       return status;
@@ -1199,6 +1200,28 @@ Status TreeDBMImpl::SaveMetadata() {
   return hash_dbm_->SetOpaqueMetadata(opaque);
 }
 
+// Gets the built-in key comparator for a type in the metadata, or null for other types.
+static KeyComparator GetBuiltinKeyComparator(int32_t key_comp_type) {
+  switch (key_comp_type) {
+    case 1: return LexicalKeyComparator;
+    case 2: return LexicalCaseKeyComparator;
+    case 3: return DecimalKeyComparator;
+    case 4: return HexadecimalKeyComparator;
+    case 5: return RealNumberKeyComparator;
+    case 6: return SignedBigEndianKeyComparator;
+    case 7: return FloatBigEndianKeyComparator;
+    case 101: return PairLexicalKeyComparator;
+    case 102: return PairLexicalCaseKeyComparator;
+    case 103: return PairDecimalKeyComparator;
+    case 104: return PairHexadecimalKeyComparator;
+    case 105: return PairRealNumberKeyComparator;
+    case 106: return PairSignedBigEndianKeyComparator;
+    case 107: return PairFloatBigEndianKeyComparator;
+    default: break;
+  }
+  return nullptr;
+}
+
 Status TreeDBMImpl::LoadMetadata() {
   const std::string opaque = hash_dbm_->GetOpaqueMetadata();
   int64_t num_records = 0;
@@ -1245,28 +1268,15 @@ Status TreeDBMImpl::LoadMetadata() {
   if (tree_level_ < 1) {
     return Status(Status::BROKEN_DATA_ERROR, "invalid tree level");
   }
-  switch (key_comp_type) {
-    case 1: key_comparator_ = LexicalKeyComparator; break;
-    case 2: key_comparator_ = LexicalCaseKeyComparator; break;
-    case 3: key_comparator_ = DecimalKeyComparator; break;
-    case 4: key_comparator_ = HexadecimalKeyComparator; break;
-    case 5: key_comparator_ = RealNumberKeyComparator; break;
-    case 6: key_comparator_ = SignedBigEndianKeyComparator; break;
-    case 7: key_comparator_ = FloatBigEndianKeyComparator; break;
-    case 101: key_comparator_ = PairLexicalKeyComparator; break;
-    case 102: key_comparator_ = PairLexicalCaseKeyComparator; break;
-    case 103: key_comparator_ = PairDecimalKeyComparator; break;
-    case 104: key_comparator_ = PairHexadecimalKeyComparator; break;
-    case 105: key_comparator_ = PairRealNumberKeyComparator; break;
-    case 106: key_comparator_ = PairSignedBigEndianKeyComparator; break;
-    case 107: key_comparator_ = PairFloatBigEndianKeyComparator; break;
-    case 255:
-      if (key_comparator_ == nullptr) {
-        return Status(Status::BROKEN_DATA_ERROR, "invalid_key_comparator");
-      }
-      break;
-    default:
+  if (key_comp_type == 255) {
+    if (key_comparator_ == nullptr) {
       return Status(Status::BROKEN_DATA_ERROR, "invalid_key_comparator");
+    }
+  } else {
+    key_comparator_ = GetBuiltinKeyComparator(key_comp_type);
+    if (key_comparator_ == nullptr) {
+      return Status(Status::BROKEN_DATA_ERROR, "invalid_key_comparator");
+    }
   }
   record_comp_ = TreeRecordComparator(key_comparator_);
   link_comp_ = TreeLinkComparator(key_comparator_);
@@ -2796,7 +2806,7 @@ Status TreeDBM::ParseMetadata(
 
 Status TreeDBM::RestoreDatabase(
     const std::string& old_file_path, const std::string& new_file_path,
-    int64_t end_offset, std::string_view cipher_key) {
+    int64_t end_offset, std::string_view cipher_key, KeyComparator key_comparator) {
   std::string tmp_file_path = old_file_path;
   if (end_offset == INT64MIN || end_offset == INT64MAX) {
     end_offset = end_offset == INT64MIN ? -1 : 0;
@@ -2881,6 +2891,10 @@ Status TreeDBM::RestoreDatabase(
   params.cipher_key = cipher_key;
   params.max_page_size = max_page_size;
   params.max_branches = max_branches;
+  params.key_comparator = GetBuiltinKeyComparator(key_comp_type);
+  if (params.key_comparator == nullptr) {
+    params.key_comparator = key_comparator;
+  }
   TreeDBM new_dbm;
   status = new_dbm.OpenAdvanced(new_file_path, true, File::OPEN_TRUNCATE, params);
   if (status != Status::SUCCESS) {
diff --git a/tkrzw_dbm_tree.h b/tkrzw_dbm_tree.h
index d0b6c9d..f802bcf 100644
--- a/tkrzw_dbm_tree.h
+++ b/tkrzw_dbm_tree.h
@@ -596,11 +596,14 @@ class TreeDBM final : public DBM {
    * mean to omit restore of the underlying hash database.  Then, INT64MIN is unlimited and
    * INT64MAX means synched restoration.
    * @param cipher_key The encryption key for cipher compressors.
+   * @param key_comparator The key comparator of the database if it is not a built-in one.  The
+   * built-in ones are known from the metadata of the old database.
    * @return The result status.
    */
   static Status RestoreDatabase(
       const std::string& old_file_path, const std::string& new_file_path,
-      int64_t end_offset, std::string_view cipher_key = "");
+      int64_t end_offset, std::string_view cipher_key = "",
+      KeyComparator key_comparator = nullptr);
 
  private:
   /** Pointer to the actual implementation. */
-- 
2.43.0


From d0f28d96abd472e139f8508a8cbc176bf11245ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:20 +0000
Subject: [PATCH 062/106] fix: the mark of an opened hash database is not
 synchronized before later updates

---
 tkrzw_dbm_hash.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 1c97850..c1aa0ba 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -762,6 +762,9 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
     proc->Process(path_);
   }
   status |= SaveMetadata(false);
+  if (hard) {
+    status |= file_->Synchronize(true, 0, METADATA_SIZE);
+  }
   return status;
 }
 
-- 
2.43.0


From 84aa7b06abd8b72b9440f2a6b31d62a49dcf609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:31 +0000
Subject: [PATCH 063/106] fix: the database type and the opaque metadata are
 lost if the process dies after Rebuild of a hash database

---
 tkrzw_dbm_hash.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index c1aa0ba..33833e1 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1787,13 +1787,15 @@ Status HashDBMImpl::RebuildImpl(
         return status;
       }
     }
-    status = tmp_dbm.Close();
+    const uint32_t db_type = db_type_;
+    const std::string opaque = opaque_;
+    status = tmp_dbm.SetDatabaseType(db_type);
+    status |= tmp_dbm.SetOpaqueMetadata(opaque);
+    status |= tmp_dbm.Close();
     if (status != Status::SUCCESS) {
       CleanUp();
       return status;
     }
-    const uint32_t db_type = db_type_;
-    const std::string opaque = opaque_;
     CancelIterators();
     auto tmp_file = file_->MakeFile();
     file_->CopyProperties(tmp_file.get());
-- 
2.43.0


From 8680b4c17e99ab29456d676fa02e68fccebd05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:15 +0000
Subject: [PATCH 064/106] fix: a tree database is half restored if the process
 dies between two steps of the restoration

---
 tkrzw_dbm_tree.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 61201eb..a11edd3 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -429,19 +429,24 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
   if (tuning_params.key_comparator != nullptr) {
     key_comparator_ = tuning_params.key_comparator;
   }
+  // The hash database is restored together with the tree so that a half restored one never remains.
+  const int32_t restore_mode = tuning_params.restore_mode & 0xffff;
+  const bool restorable = writable && restore_mode != HashDBM::RESTORE_READ_ONLY &&
+      restore_mode != HashDBM::RESTORE_NOOP;
+  if (restorable) {
+    hash_params.restore_mode = HashDBM::RESTORE_READ_ONLY;
+  }
   Status status = hash_dbm_->OpenAdvanced(norm_path, writable, options, hash_params);
   if (status != Status::SUCCESS) {
     return status;
   }
   auto_restored_ = false;
-  if (writable && hash_dbm_->IsAutoRestored() &&
-      tuning_params.restore_mode != HashDBM::RESTORE_READ_ONLY &&
-      tuning_params.restore_mode != HashDBM::RESTORE_NOOP) {
+  if (restorable && !hash_dbm_->IsHealthy()) {
     hash_dbm_->Close();
     const std::string tmp_path = norm_path + ".tmp.restore";
-    const int64_t end_offset =
-        tuning_params.restore_mode == HashDBM::RESTORE_SYNC ? INT64MAX : INT64MIN;
+    const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
     RemoveFile(tmp_path);
+    RemoveFile(tmp_path + ".tmp.restore");
     status = TreeDBM::RestoreDatabase(
         norm_path, tmp_path, end_offset, tuning_params.cipher_key, key_comparator_);
     if (status != Status::SUCCESS) {
-- 
2.43.0


From 452af90202a524d27d630e177ef21fb72f94b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:14 +0000
Subject: [PATCH 065/106] fix: records are lost if the process dies while a
 tree database in the page writing mode divides or merges pages

---
 tkrzw_dbm_tree.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index a11edd3..e3ff3ed 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -1774,8 +1774,8 @@ Status TreeDBMImpl::DivideNodes(TreeLeafNode* leaf_node, const std::string& node
     child_id = new_inner_node->id;
   }
   if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
-    status = SaveLeafNodeImpl(leaf_node);
-    status |= SaveLeafNodeImpl(new_leaf_node.get());
+    status = SaveLeafNodeImpl(new_leaf_node.get());
+    status |= SaveLeafNodeImpl(leaf_node);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1856,13 +1856,13 @@ Status TreeDBMImpl::MergeNodes(TreeLeafNode* leaf_node, const std::string& node_
         iterator->leaf_id_ = prev_leaf_node->id;
       }
     }
-    RemoveLeafNode(leaf_node);
     if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
       status = SaveLeafNodeImpl(prev_leaf_node.get());
       if (status != Status::SUCCESS) {
         return status;
       }
     }
+    RemoveLeafNode(leaf_node);
   } else if (next_leaf_node != nullptr) {
     next_leaf_node->records.swap(leaf_node->records);
     next_leaf_node->records.reserve(next_leaf_node->records.size() + leaf_node->records.size());
@@ -1891,13 +1891,13 @@ Status TreeDBMImpl::MergeNodes(TreeLeafNode* leaf_node, const std::string& node_
         iterator->leaf_id_ = next_leaf_node->id;
       }
     }
-    RemoveLeafNode(leaf_node);
     if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
       status = SaveLeafNodeImpl(next_leaf_node.get());
       if (status != Status::SUCCESS) {
         return status;
       }
     }
+    RemoveLeafNode(leaf_node);
   }
   std::shared_ptr<TreeInnerNode> inner_node = std::move(parent_node);
   while (static_cast<int32_t>(inner_node->links.size()) < max_branches_ / 2) {
-- 
2.43.0


From d55224e738b62e0f1c306e20bc4256d78a4b5bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:27 +0000
Subject: [PATCH 066/106] fix: updates by iterators of a tree database in the
 page writing mode are not written

---
 tkrzw_dbm_tree.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index e3ff3ed..8e85e28 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2527,6 +2527,12 @@ Status TreeDBMIteratorImpl::ProcessImpl(
       TreeRecord* rec = *it;
       SetPositionWithKey(node->id, rec->GetKey());
       dbm_->ProcessImpl(node.get(), std::string_view(key_ptr_, key_size_), proc, true);
+      if (node->dirty && dbm_->page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
+        status = dbm_->SaveLeafNodeImpl(node.get());
+        if (status != Status::SUCCESS) {
+          return status;
+        }
+      }
       hit = true;
     }
   } else {
@@ -2543,7 +2549,7 @@ Status TreeDBMIteratorImpl::ProcessImpl(
   if (!hit) {
     int64_t leaf_id = node->next_id;
     while (leaf_id > 0) {
-      const Status status = dbm_->LoadLeafNode(leaf_id, false, &node);
+      status = dbm_->LoadLeafNode(leaf_id, false, &node);
       if (status != Status::SUCCESS) {
         return status;
       }
@@ -2554,6 +2560,12 @@ Status TreeDBMIteratorImpl::ProcessImpl(
           TreeRecord* rec = records.front();
           SetPositionWithKey(node->id, rec->GetKey());
           dbm_->ProcessImpl(node.get(), std::string_view(key_ptr_, key_size_), proc, true);
+          if (node->dirty && dbm_->page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
+            status = dbm_->SaveLeafNodeImpl(node.get());
+            if (status != Status::SUCCESS) {
+              return status;
+            }
+          }
           hit = true;
           break;
         } else {
-- 
2.43.0


From 4ef9bbec244c22e1d2756727f1840f092e9702c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:41 +0000
Subject: [PATCH 067/106] fix: a tree database without updates since the last
 synchronization is restored needlessly

---
 tkrzw_dbm_tree.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 8e85e28..02c5426 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -440,8 +440,28 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
   if (status != Status::SUCCESS) {
     return status;
   }
+  if (restorable && !(tuning_params.restore_mode & HashDBM::RESTORE_NO_SHORTCUTS) &&
+      !hash_dbm_->IsHealthy() && hash_dbm_->GetUpdateMode() == HashDBM::UPDATE_APPENDING) {
+    // The file which is not changed since the last synchronization needs no restoration.
+    int32_t cyclic_magic, major_version, minor_version, static_flags, offset_width, align_pow;
+    int32_t closure_flags, db_type;
+    int64_t num_buckets, num_records, eff_data_size, file_size, mod_time;
+    std::string opaque;
+    if (HashDBM::ReadMetadata(
+            hash_dbm_->GetInternalFile(), &cyclic_magic, &major_version, &minor_version,
+            &static_flags, &offset_width, &align_pow, &closure_flags, &num_buckets,
+            &num_records, &eff_data_size, &file_size, &mod_time, &db_type, &opaque) ==
+        Status::SUCCESS && file_size == hash_dbm_->GetFileSizeSimple()) {
+      hash_dbm_->Close();
+      hash_params.restore_mode = tuning_params.restore_mode;
+      status = hash_dbm_->OpenAdvanced(norm_path, writable, options, hash_params);
+      if (status != Status::SUCCESS) {
+        return status;
+      }
+    }
+  }
   auto_restored_ = false;
-  if (restorable && !hash_dbm_->IsHealthy()) {
+  if (restorable && (!hash_dbm_->IsHealthy() || hash_dbm_->IsAutoRestored())) {
     hash_dbm_->Close();
     const std::string tmp_path = norm_path + ".tmp.restore";
     const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
-- 
2.43.0


From a0c5c93d30a4e5b0a3bba91af219ebfc9f017e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:55 +0000
Subject: [PATCH 068/106] fix: a tree page updated and evicted while another
 thread loads it is overwritten by the old contents

---
 tkrzw_dbm_tree.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 02c5426..50b44d1 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -1327,12 +1327,11 @@ Status TreeDBMImpl::LoadLeafNode(
     int64_t id, bool promotion, std::shared_ptr<TreeLeafNode>* node) {
   int32_t slot_index = id % NUM_PAGE_SLOTS;
   LeafSlot* slot = leaf_slots_ + slot_index;
-  {
-    std::lock_guard<SpinMutex> lock(slot->mutex);
-    *node = slot->cache->Get(id, promotion);
-    if (*node != nullptr) {
-      return Status(Status::SUCCESS);
-    }
+  // The slot is kept locked so that a page updated and evicted meanwhile is not overwritten.
+  std::lock_guard<SpinMutex> lock(slot->mutex);
+  *node = slot->cache->Get(id, promotion);
+  if (*node != nullptr) {
+    return Status(Status::SUCCESS);
   }
   char node_key_buf[PAGE_ID_WIDTH];
   WriteFixNum(node_key_buf, id, PAGE_ID_WIDTH);
@@ -1372,8 +1371,8 @@ Status TreeDBMImpl::LoadLeafNode(
     FreeTreeRecords(&records);
     return load_status;
   }
-  *node = (new TreeLeafNode(this, id, prev_id, next_id,
-                            std::move(records), page_size))->AddToCache();
+  *node = slot->cache->Add(id, new TreeLeafNode(
+      this, id, prev_id, next_id, std::move(records), page_size));
   return Status(Status::SUCCESS);
 }
 
-- 
2.43.0


From 2cb91e4c870ece27d04462a81359708d03d41bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:57 +0000
Subject: [PATCH 069/106] fix: a tree database cannot be used if the process
 dies after Clear and before the next synchronization

---
 tkrzw_dbm_tree.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 50b44d1..57b81bd 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -865,7 +865,9 @@ Status TreeDBMImpl::Clear() {
   first_id_ = leaf_node->id;
   last_id_ = leaf_node->id;
   tree_level_ = 1;
+  status |= FlushLeafCacheAll(false);
   status |= SaveMetadata();
+  status |= hash_dbm_->Synchronize(false);
   return status;
 }
 
-- 
2.43.0


From 47d32b50ccd0029da3121be3810c35af0e39a398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:01 +0000
Subject: [PATCH 070/106] fix: an incomplete export replaces the file of an
 on-memory database

---
 tkrzw_dbm_baby.cc  | 18 +++++++++++++-----
 tkrzw_dbm_cache.cc | 22 +++++++++++++++-------
 tkrzw_dbm_tiny.cc  | 18 +++++++++++++-----
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index b1d0501..12f5cf8 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1032,9 +1032,13 @@ Status BabyDBMImpl::ImportRecords() {
 }
 
 Status BabyDBMImpl::ExportRecords() {
-  Status status = file_->Close();
-  if (status != Status::SUCCESS) {
-    return status;
+  Status status(Status::SUCCESS);
+  if (file_->IsOpen()) {
+    status = file_->Close();
+    if (status != Status::SUCCESS) {
+      file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
+      return status;
+    }
   }
   const std::string export_path = path_ + ".tmp.export";
   const int32_t export_options = File::OPEN_TRUNCATE | (open_options_ & File::OPEN_SYNC_HARD);
@@ -1063,8 +1067,12 @@ Status BabyDBMImpl::ExportRecords() {
     leaf_node = leaf_node->next;
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
-  RemoveFile(export_path);
+  if (status == Status::SUCCESS) {
+    status = RenameFile(export_path, path_);
+  }
+  if (status != Status::SUCCESS) {
+    RemoveFile(export_path);
+  }
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
 }
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index fc0809b..daf7b4b 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -946,9 +946,13 @@ Status CacheDBMImpl::ImportRecords() {
 }
 
 Status CacheDBMImpl::ExportRecords() {
-  Status status = file_->Close();
-  if (status != Status::SUCCESS) {
-    return status;
+  Status status(Status::SUCCESS);
+  if (file_->IsOpen()) {
+    status = file_->Close();
+    if (status != Status::SUCCESS) {
+      file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
+      return status;
+    }
   }
   const std::string export_path = path_ + ".tmp.export";
   const int32_t export_options = File::OPEN_TRUNCATE | (open_options_ & File::OPEN_SYNC_HARD);
@@ -976,14 +980,18 @@ Status CacheDBMImpl::ExportRecords() {
   meta["cap_mem_size"] = ToString(cap_mem_size_);
   status |= flat_rec.Write(SerializeStrMap(meta), FlatRecord::RECORD_METADATA);
   for (auto& slot : slots_) {
-    status = slot.ExportRecords(&flat_rec);
+    status |= slot.ExportRecords(&flat_rec);
     if (status != Status::SUCCESS) {
-      return status;
+      break;
     }
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
-  RemoveFile(export_path);
+  if (status == Status::SUCCESS) {
+    status = RenameFile(export_path, path_);
+  }
+  if (status != Status::SUCCESS) {
+    RemoveFile(export_path);
+  }
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
 }
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 66339a1..9a83b92 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -589,9 +589,13 @@ Status TinyDBMImpl::ImportRecords() {
 }
 
 Status TinyDBMImpl::ExportRecords() {
-  Status status = file_->Close();
-  if (status != Status::SUCCESS) {
-    return status;
+  Status status(Status::SUCCESS);
+  if (file_->IsOpen()) {
+    status = file_->Close();
+    if (status != Status::SUCCESS) {
+      file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
+      return status;
+    }
   }
   const std::string export_path = path_ + ".tmp.export";
   const int32_t export_options = File::OPEN_TRUNCATE | (open_options_ & File::OPEN_SYNC_HARD);
@@ -621,8 +625,12 @@ Status TinyDBMImpl::ExportRecords() {
     }
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
-  RemoveFile(export_path);
+  if (status == Status::SUCCESS) {
+    status = RenameFile(export_path, path_);
+  }
+  if (status != Status::SUCCESS) {
+    RemoveFile(export_path);
+  }
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
 }
-- 
2.43.0


From 3674fc4aa263d3cbf48d2e47ae6911ccbba180b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:01 +0000
Subject: [PATCH 071/106] fix: StdHashDBM and StdTreeDBM ignore failures of
 exporting records

---
 tkrzw_dbm_std.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 3a2ecae..ce717a1 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -447,7 +447,7 @@ Status StdDBMImpl<STRMAP>::Synchronize(bool hard, DBM::FileProcessor* proc) {
       proc->Process(path_);
     }
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 template <class STRMAP>
@@ -572,9 +572,13 @@ Status StdDBMImpl<STRMAP>::ImportRecords() {
 
 template <class STRMAP>
 Status StdDBMImpl<STRMAP>::ExportRecords() {
-  Status status = file_->Close();
-  if (status != Status::SUCCESS) {
-    return status;
+  Status status(Status::SUCCESS);
+  if (file_->IsOpen()) {
+    status = file_->Close();
+    if (status != Status::SUCCESS) {
+      file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
+      return status;
+    }
   }
   const std::string export_path = path_ + ".tmp.export";
   const int32_t export_options = File::OPEN_TRUNCATE | (open_options_ & File::OPEN_SYNC_HARD);
@@ -603,8 +607,12 @@ Status StdDBMImpl<STRMAP>::ExportRecords() {
     ++it;
   }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
-  RemoveFile(export_path);
+  if (status == Status::SUCCESS) {
+    status = RenameFile(export_path, path_);
+  }
+  if (status != Status::SUCCESS) {
+    RemoveFile(export_path);
+  }
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
 }
-- 
2.43.0


From 76b7b2a0f1a4f55b3e2e2976347d5a2a636fa165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:01 +0000
Subject: [PATCH 072/106] fix: null bytes after the last flat record make a
 database file unreadable

---
 tkrzw_file_util.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index a33ad6d..7ef968c 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1317,7 +1317,7 @@ FlatRecordReader::~FlatRecordReader() {
 Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec_type) {
   constexpr int64_t min_record_size = sizeof(uint8_t) * 2;
   constexpr size_t max_header_size = sizeof(uint8_t) + sizeof(uint64_t);
-  if (index_ + max_header_size <= data_size_) {
+  if (index_ + max_header_size <= data_size_ && buffer_[index_] != 0) {
     size_t record_size = data_size_ - index_;
     const char* rp = buffer_ + index_;
     if (*(uint8_t*)rp == FlatRecord::RECORD_MAGIC_NORMAL) {
@@ -1363,6 +1363,22 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
   if (status != Status::SUCCESS) {
     return status;
   }
+  if (*buffer_ == 0) {
+    // Null bytes after the last record are left if the process dies while the file is open.
+    for (int64_t offset = offset_; offset < file_size; offset += data_size_) {
+      data_size_ = std::min(static_cast<int64_t>(buffer_size_), file_size - offset);
+      status = file_->Read(offset, buffer_, data_size_);
+      if (status != Status::SUCCESS) {
+        return status;
+      }
+      if (std::any_of(buffer_, buffer_ + data_size_, [](char c) { return c != 0; })) {
+        return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+      }
+    }
+    data_size_ = 0;
+    index_ = 0;
+    return Status(Status::NOT_FOUND_ERROR);
+  }
   size_t record_size = data_size_;
   const char* rp = buffer_;
   if (*(uint8_t*)rp == FlatRecord::RECORD_MAGIC_NORMAL) {
-- 
2.43.0


From e760cd551de4eecf7357188022a0ade9b52290b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:01 +0000
Subject: [PATCH 073/106] fix: rebuilding a hash database ignores failures of
 importing and renaming

---
 tkrzw_dbm_hash.cc | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 33833e1..1e652ed 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1804,16 +1804,21 @@ Status HashDBMImpl::RebuildImpl(
       CleanUp();
       return status;
     }
-    fbp_.Clear();
     if (sync_hard) {
       status |= tmp_file->Synchronize(true);
     }
-    status |= file_->DisablePathOperations();
-    if (IS_POSIX) {
+    if (IS_POSIX && status == Status::SUCCESS) {
       status |= tmp_file->Rename(path_);
-      status |= file_->Close();
-    } else {
-      status |= file_->Close();
+    }
+    if (status != Status::SUCCESS) {
+      tmp_file->Close();
+      CleanUp();
+      return status;
+    }
+    fbp_.Clear();
+    status |= file_->DisablePathOperations();
+    status |= file_->Close();
+    if (!IS_POSIX) {
       status |= tmp_file->Rename(path_);
     }
     if (sync_hard) {
@@ -1934,24 +1939,28 @@ Status HashDBMImpl::ImportFromFileForwardImpl(
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       Status set_status(Status::SUCCESS);
       DBM::RecordProcessorSet setter(&set_status, value, true, nullptr);
-      *status_ = impl_->Process(key, &setter, false, true);
+      *status_ |= impl_->Process(key, &setter, false, true);
       *status_ |= set_status;
       return NOOP;
     }
     std::string_view ProcessEmpty(std::string_view key) override {
       Status remove_status(Status::SUCCESS);
       DBM::RecordProcessorRemove remover(&remove_status, nullptr);
-      *status_ = impl_->Process(key, &remover, false, true);
-      *status_ |= remove_status;
+      *status_ |= impl_->Process(key, &remover, false, true);
+      if (remove_status != Status::NOT_FOUND_ERROR) {
+        *status_ |= remove_status;
+      }
       return NOOP;
     }
    private:
     HashDBMImpl* impl_;
     Status* status_;
   } importer(this, &import_status);
-  return HashRecord::ReplayOperations(
+  status = HashRecord::ReplayOperations(
       file, &importer, record_base, crc_width, compressor.get(),
       offset_width, align_pow, min_read_size_, skip_broken_records, end_offset);
+  status |= import_status;
+  return status;
 }
 
 Status HashDBMImpl::ImportFromFileBackwardImpl(
@@ -2011,6 +2020,10 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
   dead_tuning_params.align_pow = 0;
   dead_tuning_params.num_buckets = dead_num_buckets;
   status = dead_dbm.OpenAdvanced(dead_path, true, File::OPEN_TRUNCATE, dead_tuning_params);
+  if (status != Status::SUCCESS) {
+    CleanUp();
+    return status;
+  }
   OffsetReader reader(offset_file.get(), offset_width, align_pow, true);
   HashRecord rec(file, crc_width, offset_width, align_pow);
   ScopedStringView comp_data_placeholder;
@@ -2067,6 +2080,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
               if (skip_broken_records) {
                 continue;
               } else {
+                CleanUp();
                 return Status(Status::BROKEN_DATA_ERROR, "decompression failed");
               }
             }
@@ -2081,6 +2095,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
             return status;
           }
           if (set_status != Status::SUCCESS && set_status != Status::DUPLICATION_ERROR) {
+            CleanUp();
             return set_status;
           }
         }
@@ -2111,6 +2126,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
         break;
       }
       default: {
+        CleanUp();
         return Status(Status::BROKEN_DATA_ERROR, "void data is read");
       }
     }
-- 
2.43.0


From 3e21786f5a5fab4e8cda6acd861a8b38b24b60a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:01 +0000
Subject: [PATCH 074/106] fix: StdFile tries to open the new path after failing
 to rename

---
 tkrzw_file_std.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index 682f3d6..4be2fa8 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -233,7 +233,7 @@ Status StdFileImpl::Rename(const std::string& new_path) {
   }
   status = RenameFile(old_path, new_path);
   if (status != Status::SUCCESS) {
-    OpenImpl(new_path, writable, options);
+    OpenImpl(old_path, writable, options);
     return status;
   }
   return OpenImpl(new_path, writable, options);
-- 
2.43.0


From 252412bf6ef4b811ad7b7016eba175dca4d9fea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:01 +0000
Subject: [PATCH 075/106] fix: a skip database is replaced by an incomplete
 file after a failed synchronization

---
 tkrzw_dbm_skip.cc | 95 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 70 insertions(+), 25 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 8ae280c..f2b01d5 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -120,6 +120,8 @@ class SkipDBMImpl final {
   Status PadFileForDirectIO();
   Status PrepareStorage();
   Status FinishStorage(SkipDBM::ReducerType reducer);
+  Status FinishStorageImpl(SkipDBM::ReducerType reducer);
+  Status ReplaceFile(std::unique_ptr<File>* file);
   Status DiscardStorage();
   int64_t GetNumSyncedRecords() const;
   Status UpdateRecord(std::string_view key, std::string_view new_value);
@@ -689,6 +691,7 @@ Status SkipDBMImpl::Clear() {
   if (updated_) {
     const Status status = FinishStorage(nullptr);
     if (status != Status::SUCCESS) {
+      PrepareStorage();
       return status;
     }
   }
@@ -725,6 +728,7 @@ Status SkipDBMImpl::Rebuild(
   if (updated_) {
     const Status status = FinishStorage(nullptr);
     if (status != Status::SUCCESS) {
+      PrepareStorage();
       return status;
     }
   }
@@ -801,7 +805,11 @@ Status SkipDBMImpl::Rebuild(
     offset += rec.GetWholeSize();
     index++;
   }
-  status = tmp_dbm.Close();
+  const uint32_t db_type = db_type_;
+  const std::string opaque = opaque_;
+  status = tmp_dbm.SetDatabaseType(db_type);
+  status |= tmp_dbm.SetOpaqueMetadata(opaque);
+  status |= tmp_dbm.Close();
   if (status != Status::SUCCESS) {
     CleanUp();
     return status;
@@ -817,12 +825,17 @@ Status SkipDBMImpl::Rebuild(
   if (sync_hard) {
     status |= rebuild_file->Synchronize(true);
   }
-  status |= file_->DisablePathOperations();
-  if (IS_POSIX) {
+  if (IS_POSIX && status == Status::SUCCESS) {
     status |= rebuild_file->Rename(path_);
-    status |= file_->Close();
-  } else {
-    status |= file_->Close();
+  }
+  if (status != Status::SUCCESS) {
+    rebuild_file->Close();
+    CleanUp();
+    return status;
+  }
+  status |= file_->DisablePathOperations();
+  status |= file_->Close();
+  if (!IS_POSIX) {
     status |= rebuild_file->Rename(path_);
   }
   if (sync_hard) {
@@ -836,8 +849,6 @@ Status SkipDBMImpl::Rebuild(
     }
   }
   file_ = std::move(rebuild_file);
-  const uint32_t db_type = db_type_;
-  const std::string opaque = opaque_;
   LoadMetadata();
   db_type_ = db_type;
   opaque_ = opaque;
@@ -1259,6 +1270,34 @@ Status SkipDBMImpl::PrepareStorage() {
 }
 
 Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
+  const Status status = FinishStorageImpl(reducer);
+  if (status != Status::SUCCESS) {
+    DiscardStorage();
+    file_size_ = file_->GetSizeSimple();
+  }
+  return status;
+}
+
+Status SkipDBMImpl::ReplaceFile(std::unique_ptr<File>* file) {
+  Status status = (*file)->Synchronize(false);
+  if (IS_POSIX && status == Status::SUCCESS) {
+    status |= (*file)->Rename(path_);
+  }
+  if (status != Status::SUCCESS) {
+    return status;
+  }
+  status |= file_->DisablePathOperations();
+  status |= file_->Close();
+  if (!IS_POSIX) {
+    status |= (*file)->Rename(path_);
+  }
+  file_ = std::move(*file);
+  old_num_records_ = num_records_;
+  old_eff_data_size_ = eff_data_size_;
+  return status;
+}
+
+Status SkipDBMImpl::FinishStorageImpl(SkipDBM::ReducerType reducer) {
   const std::string sorted_path = path_ + SORTED_FILE_SUFFIX;
   const std::string merged_path = path_ + MERGED_FILE_SUFFIX;
   Status status(Status::SUCCESS);
@@ -1268,18 +1307,13 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
-    file_->DisablePathOperations();
-    if (IS_POSIX) {
-      status |= sorted_file_->Rename(path_);
-      status |= file_->Close();
-    } else {
-      status |= file_->Close();
-      status |= sorted_file_->Rename(path_);
+    if (status != Status::SUCCESS) {
+      return status;
     }
+    status |= ReplaceFile(&sorted_file_);
     if (status != Status::SUCCESS) {
       return status;
     }
-    file_ = std::move(sorted_file_);
   } else {
     if (file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
       record_sorter_->AddSkipRecord(new SkipRecord(
@@ -1300,7 +1334,15 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     if (status != Status::SUCCESS) {
       return status;
     }
-    merged_file->Truncate(METADATA_SIZE);
+    auto CleanUp = [&]() {
+      merged_file->Close();
+      RemoveFile(merged_path);
+    };
+    status = merged_file->Truncate(METADATA_SIZE);
+    if (status != Status::SUCCESS) {
+      CleanUp();
+      return status;
+    }
     num_records_ = 0;
     eff_data_size_ = 0;
     record_index_ = 0;
@@ -1313,6 +1355,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       tkrzw::Status status = record_sorter_->Get(&key, &value);
       if (status != tkrzw::Status::SUCCESS) {
         if (status != tkrzw::Status::NOT_FOUND_ERROR) {
+          CleanUp();
           return status;
         }
         break;
@@ -1320,6 +1363,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
       if (reducer == nullptr && !removed_) {
         status = WriteRecord(key, value, merged_file.get());
         if (status != Status::SUCCESS) {
+          CleanUp();
           return status;
         }
       } else {
@@ -1337,6 +1381,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
             for (const auto& new_value : new_values) {
               status = WriteRecord(last_key, new_value, merged_file.get());
               if (status != Status::SUCCESS) {
+                CleanUp();
                 return status;
               }
             }
@@ -1356,6 +1401,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
         for (const auto& new_value : new_values) {
           status = WriteRecord(last_key, new_value, merged_file.get());
           if (status != Status::SUCCESS) {
+            CleanUp();
             return status;
           }
         }
@@ -1364,18 +1410,17 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     file_size_ = merged_file->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(merged_file.get(), true);
-    file_->DisablePathOperations();
-    if (IS_POSIX) {
-      status |= merged_file->Rename(path_);
-      status |= file_->Close();
-    } else {
-      status |= file_->Close();
-      status |= merged_file->Rename(path_);
+    if (status != Status::SUCCESS) {
+      CleanUp();
+      return status;
     }
+    status |= ReplaceFile(&merged_file);
     if (status != Status::SUCCESS) {
+      if (merged_file != nullptr) {
+        CleanUp();
+      }
       return status;
     }
-    file_ = std::move(merged_file);
     if (sorted_file_ != nullptr) {
       status |= sorted_file_->Close();
       status |= RemoveFile(sorted_path);
-- 
2.43.0


From ce0e6c79a3b8fb5d5a91a2f722c4d0869c33e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:12 +0000
Subject: [PATCH 076/106] fix: TreeDBM::ProcessMulti leaves pages locked if
 saving a page fails

---
 tkrzw_dbm_tree.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 57b81bd..bf713a0 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -658,14 +658,15 @@ Status TreeDBMImpl::ProcessMulti(
       id_leaf_node.second->mutex.lock_shared();
     }
   }
+  Status status(Status::SUCCESS);
   for (size_t i = 0; i < key_proc_pairs.size(); i++) {
     auto& key_proc = key_proc_pairs[i];
     auto& leaf_node = leaf_nodes[i];
     ProcessImpl(leaf_node.get(), key_proc.first, key_proc.second, writable);
     if (leaf_node->dirty && page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
-      const Status status = SaveLeafNodeImpl(leaf_node.get());
+      status = SaveLeafNodeImpl(leaf_node.get());
       if (status != Status::SUCCESS) {
-        return status;
+        break;
       }
     }
   }
@@ -677,6 +678,9 @@ Status TreeDBMImpl::ProcessMulti(
       id_leaf_node->second->mutex.unlock_shared();
     }
   }
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   return AdjustCaches();
 }
 
-- 
2.43.0


From acfb9cb0c18280b46ed66e33ad84e3968464b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:12 +0000
Subject: [PATCH 077/106] fix: a skip database crashes or misreads after a
 failed rebuild or reopening of temporary files

---
 tkrzw_dbm_skip.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index f2b01d5..929c43b 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -770,6 +770,9 @@ Status SkipDBMImpl::Rebuild(
   auto CleanUp = [&]() {
     tmp_dbm.Close();
     RemoveFile(rebuild_path);
+    if (record_sorter_ == nullptr) {
+      PrepareStorage();
+    }
   };
   Status status =
       tmp_dbm.OpenAdvanced(rebuild_path, true, File::OPEN_TRUNCATE, tmp_tuning_params);
@@ -849,7 +852,13 @@ Status SkipDBMImpl::Rebuild(
     }
   }
   file_ = std::move(rebuild_file);
-  LoadMetadata();
+  const Status load_status = LoadMetadata();
+  if (load_status != Status::SUCCESS) {
+    status |= load_status;
+    offset_width_ = offset_width;
+    step_unit_ = step_unit;
+    max_level_ = max_level;
+  }
   db_type_ = db_type;
   opaque_ = opaque;
   file_size_ = file_->GetSizeSimple();
@@ -1251,15 +1260,17 @@ Status SkipDBMImpl::PrepareStorage() {
   record_sorter_ = std::make_unique<RecordSorter>(sorter_path, sort_mem_size_, use_mmap);
   if (insert_in_order_) {
     const std::string sorted_path = path_ + SORTED_FILE_SUFFIX;
-    sorted_file_ = file_->MakeFile();
-    Status status = sorted_file_->Open(sorted_path, true, File::OPEN_TRUNCATE);
+    sorted_file_.reset(nullptr);
+    auto sorted_file = file_->MakeFile();
+    Status status = sorted_file->Open(sorted_path, true, File::OPEN_TRUNCATE);
     if (status != Status::SUCCESS) {
       return status;
     }
-    status = sorted_file_->Truncate(METADATA_SIZE);
+    status = sorted_file->Truncate(METADATA_SIZE);
     if (status != Status::SUCCESS) {
       return status;
     }
+    sorted_file_ = std::move(sorted_file);
     record_index_ = 0;
     past_offsets_.clear();
     past_offsets_.resize(max_level_, 0);
@@ -1292,6 +1303,7 @@ Status SkipDBMImpl::ReplaceFile(std::unique_ptr<File>* file) {
     status |= (*file)->Rename(path_);
   }
   file_ = std::move(*file);
+  cache_ = std::make_unique<SkipRecordCache>(step_unit_, max_cached_records_, num_records_);
   old_num_records_ = num_records_;
   old_eff_data_size_ = eff_data_size_;
   return status;
-- 
2.43.0


From 70bfcf29b7c1c6bb48139a91c03eb1b354147c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:12 +0000
Subject: [PATCH 078/106] fix: the bucket locks do not match the new file if
 the end of rebuilding fails

---
 tkrzw_dbm_hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 1e652ed..8d42e43 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1206,6 +1206,7 @@ Status HashDBMImpl::OpenImpl(bool writable) {
     file_size_ = INT64MAX;
   }
   SetRecordBase();
+  record_mutex_.Rehash(num_buckets_);
   status = TuneFileAfterOpen();
   if (status != Status::SUCCESS) {
     return status;
@@ -1238,7 +1239,6 @@ Status HashDBMImpl::OpenImpl(bool writable) {
       }
     }
   }
-  record_mutex_.Rehash(num_buckets_);
   open_ = true;
   writable_ = writable;
   healthy_ = healthy;
-- 
2.43.0


From 6d5b0eed6b13bf9847c03a409ab66e34cc45facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:16 +0000
Subject: [PATCH 079/106] fix: applying the update log fails if a file has no
 messages

---
 tkrzw_dbm_ulog.cc      | 2 +-
 tkrzw_message_queue.cc | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index f1101ab..9182f5d 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -356,7 +356,7 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
           &file, &file_offset, &timestamp, &message);
       if (status != Status::SUCCESS) {
         if (status == Status::CANCELED_ERROR) {
-          continue;
+          break;
         }
         return status;
       }
diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 1edab0c..e1a5312 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -694,6 +694,9 @@ Status MessageQueue::ReadNextMessage(
   char header[RECORD_HEADER_SIZE];
   Status status = file->Read(*file_offset, header, sizeof(header));
   if (status != Status::SUCCESS) {
+    if (*file_offset == file->GetSizeSimple()) {
+      return Status(Status::CANCELED_ERROR);
+    }
     return status;
   }
   const char* rp = header;
-- 
2.43.0


From 659cd2c5f471530436b51dc7823e3695f0b6fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:16 +0000
Subject: [PATCH 080/106] fix: reopening an on-memory database logs the loaded
 records as updates

---
 tkrzw_dbm_baby.cc  | 3 +++
 tkrzw_dbm_cache.cc | 3 +++
 tkrzw_dbm_tiny.cc  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 12f5cf8..2660ae0 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -379,7 +379,10 @@ Status BabyDBMImpl::Open(const std::string& path, bool writable, int32_t options
   if (file_->GetSizeSimple() < 1) {
     timestamp_ = GetWallTime();
   }
+  DBM::UpdateLogger* const update_logger = update_logger_;
+  update_logger_ = nullptr;
   status = ImportRecords();
+  update_logger_ = update_logger;
   if (status != Status::SUCCESS) {
     file_->Close();
     return status;
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index daf7b4b..3272b91 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -627,7 +627,10 @@ Status CacheDBMImpl::Open(const std::string& path, bool writable, int32_t option
   if (file_->GetSizeSimple() < 1) {
     timestamp_ = GetWallTime();
   }
+  DBM::UpdateLogger* const update_logger = update_logger_;
+  update_logger_ = nullptr;
   status = ImportRecords();
+  update_logger_ = update_logger;
   if (status != Status::SUCCESS) {
     file_->Close();
     return status;
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 9a83b92..ef6bae1 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -241,7 +241,10 @@ Status TinyDBMImpl::Open(const std::string& path, bool writable, int32_t options
   if (file_->GetSizeSimple() < 1) {
     timestamp_ = GetWallTime();
   }
+  DBM::UpdateLogger* const update_logger = update_logger_;
+  update_logger_ = nullptr;
   status = ImportRecords();
+  update_logger_ = update_logger;
   if (status != Status::SUCCESS) {
     file_->Close();
     return status;
-- 
2.43.0


From 3ff902a59096b4d7d6e4af6af6fa166f9d46c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:51 +0000
Subject: [PATCH 081/106] fix: updating a sharded database crashes after its
 update logger is detached

---
 tkrzw_dbm_shard.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 17fad83..0afeb65 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -613,7 +613,7 @@ void ShardDBM::SetUpdateLogger(UpdateLogger* update_logger) {
   ulog_second_.SetUpdateLogger(update_logger);
   bool first = true;
   for (const auto& dbm : dbms_) {
-    if (first) {
+    if (first || update_logger == nullptr) {
       dbm->SetUpdateLogger(update_logger);
       first = false;
     } else {
-- 
2.43.0


From f373807df3ec10bacf2458fa487e4de6d900c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:56 +0000
Subject: [PATCH 082/106] fix: the timestamp goes back after recovering
 messages of a crashed session

---
 tkrzw_message_queue.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index e1a5312..32daa51 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -219,6 +219,7 @@ Status MessageQueueImpl::Open(
       std::string message;
       while (MessageQueue::ReadNextMessage(
                  last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS) {
+        timestamp_ = std::max(timestamp, timestamp_);
       }
       check_file_size = offset;
     }
-- 
2.43.0


From ec60c876bf51e765dfb10c8173283edd4158f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:24 +0000
Subject: [PATCH 083/106] fix: an incomplete message at the end of a queue is
 padded into a broken message

---
 tkrzw_message_queue.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 32daa51..9f80f39 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -217,11 +217,15 @@ Status MessageQueueImpl::Open(
       int64_t offset = METADATA_SIZE;
       int64_t timestamp = 0;
       std::string message;
+      check_file_size = offset;
       while (MessageQueue::ReadNextMessage(
                  last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS) {
+        if (offset > act_file_size) {
+          break;
+        }
         timestamp_ = std::max(timestamp, timestamp_);
+        check_file_size = offset;
       }
-      check_file_size = offset;
     }
     if (check_file_size == act_file_size ||
         (options & MessageQueue::OPEN_IGNORE_BROKEN) ||
-- 
2.43.0


From c7bd5eedb540dd86b9c4f155d5e24d088c22d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:25 +0000
Subject: [PATCH 084/106] fix: the timestamp goes back if the process dies
 while a queue file is created

---
 tkrzw_message_queue.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 9f80f39..225a21d 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -175,6 +175,18 @@ Status MessageQueueImpl::Open(
     return status;
   }
   if (last_file->GetSizeSimple() == 0) {
+    cyclic_magic_ = 0;
+    timestamp_ = 0;
+    if (file_paths.size() > 1) {
+      int64_t prev_file_id = 0;
+      int64_t prev_file_size = 0;
+      status = MessageQueue::ReadFileMetadata(
+          file_paths[file_paths.size() - 2], &prev_file_id, &timestamp_, &prev_file_size);
+      if (status != Status::SUCCESS) {
+        files_.clear();
+        return status;
+      }
+    }
     status = SynchronizeImpl(sync_hard_);
     if (status != Status::SUCCESS) {
       files_.clear();
-- 
2.43.0


From 642eeda79e0e545fb96d9b2910423c2a04581e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:25 +0000
Subject: [PATCH 085/106] fix: a message queue cannot be opened again after
 opening failed

---
 tkrzw_message_queue.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 225a21d..9701142 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -59,6 +59,7 @@ class MessageQueueImpl final {
       int64_t* file_size);
 
  private:
+  Status OpenImpl(const std::string& prefix, int64_t max_file_size, int32_t options);
   std::string MakeFilePath(int64_t file_id);
   Status SynchronizeImpl(bool hard);
   void ReleaseFiles();
@@ -138,6 +139,15 @@ Status MessageQueueImpl::Open(
   if (!files_.empty()) {
     return Status(Status::PRECONDITION_ERROR, "opened message queue");
   }
+  const Status status = OpenImpl(prefix, max_file_size, options);
+  if (status != Status::SUCCESS) {
+    files_.clear();
+  }
+  return status;
+}
+
+Status MessageQueueImpl::OpenImpl(
+    const std::string& prefix, int64_t max_file_size, int32_t options) {
   if ((options & MessageQueue::OPEN_TRUNCATE) && !(options & MessageQueue::OPEN_READ_ONLY)) {
     std::vector<std::string> file_paths;
     if (MessageQueue::FindFiles(prefix, &file_paths) == Status::SUCCESS) {
-- 
2.43.0


From 0dfac57e227dfb4945c5655c9c69ff4fe47eb71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:59 +0000
Subject: [PATCH 086/106] fix: asynchronous SetMulti ignores the overwrite flag

---
 tkrzw_dbm_async.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_async.h b/tkrzw_dbm_async.h
index 77479f4..1e37074 100644
--- a/tkrzw_dbm_async.h
+++ b/tkrzw_dbm_async.h
@@ -223,7 +223,7 @@ class AsyncDBM final {
    */
   std::future<Status> SetMulti(
       const std::map<std::string, std::string>& records, bool overwrite = true) {
-    return SetMulti(MakeStrViewMapFromRecords(records));
+    return SetMulti(MakeStrViewMapFromRecords(records), overwrite);
   }
 
   /**
-- 
2.43.0


From 43ffd669a8a7b99757e550d12274311e3e786eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:06 +0000
Subject: [PATCH 087/106] fix: the common postprocessor is not called for the
 Process family

---
 tkrzw_dbm_async.h | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/tkrzw_dbm_async.h b/tkrzw_dbm_async.h
index 1e37074..b4e4a74 100644
--- a/tkrzw_dbm_async.h
+++ b/tkrzw_dbm_async.h
@@ -657,6 +657,7 @@ inline std::future<std::pair<Status, std::unique_ptr<PROC>>> AsyncDBM::Process(
     std::string_view key, std::unique_ptr<PROC> proc, bool writable) {
   struct ProcessTask : public TaskQueue::Task {
     DBM* dbm;
+    AsyncDBM::CommonPostprocessor* postproc;
     std::string key;
     std::unique_ptr<PROC> proc;
     bool writable;
@@ -664,11 +665,15 @@ inline std::future<std::pair<Status, std::unique_ptr<PROC>>> AsyncDBM::Process(
     void Do() override {
       Status status = dbm->Process(key, proc.get(), writable);
       proc->ProcessStatus(status);
+      if (postproc != nullptr) {
+        postproc->Postprocess("Process", status);
+      }
       promise.set_value(std::make_pair(std::move(status), std::move(proc)));
     }
   };
   auto task = std::make_unique<ProcessTask>();
   task->dbm = dbm_;
+  task->postproc = postproc_.get();
   task->key = key;
   task->proc = std::move(proc);
   task->writable = writable;
@@ -681,17 +686,22 @@ inline std::future<Status> AsyncDBM::Process(
     std::string_view key, DBM::RecordLambdaType rec_lambda, bool writable) {
   struct ProcessTask : public TaskQueue::Task {
     DBM* dbm;
+    AsyncDBM::CommonPostprocessor* postproc;
     std::string key;
     DBM::RecordLambdaType rec_lambda;
     bool writable;
     std::promise<Status> promise;
     void Do() override {
       Status status = dbm->Process(key, rec_lambda, writable);
+      if (postproc != nullptr) {
+        postproc->Postprocess("Process", status);
+      }
       promise.set_value(std::move(status));
     }
   };
   auto task = std::make_unique<ProcessTask>();
   task->dbm = dbm_;
+  task->postproc = postproc_.get();
   task->key = key;
   task->rec_lambda = rec_lambda;
   task->writable = writable;
@@ -705,17 +715,22 @@ inline std::future<std::pair<Status, std::unique_ptr<PROC>>> AsyncDBM::ProcessFi
     std::unique_ptr<PROC> proc, bool writable) {
   struct ProcessEachTask : public TaskQueue::Task {
     DBM* dbm;
+    AsyncDBM::CommonPostprocessor* postproc;
     std::unique_ptr<PROC> proc;
     bool writable;
     std::promise<std::pair<Status, std::unique_ptr<PROC>>> promise;
     void Do() override {
       Status status = dbm->ProcessFirst(proc.get(), writable);
       proc->ProcessStatus(status);
+      if (postproc != nullptr) {
+        postproc->Postprocess("ProcessFirst", status);
+      }
       promise.set_value(std::make_pair(std::move(status), std::move(proc)));
     }
   };
   auto task = std::make_unique<ProcessEachTask>();
   task->dbm = dbm_;
+  task->postproc = postproc_.get();
   task->proc = std::move(proc);
   task->writable = writable;
   auto future = task->promise.get_future();
@@ -727,16 +742,21 @@ inline std::future<Status> AsyncDBM::ProcessFirst(
     DBM::RecordLambdaType rec_lambda, bool writable) {
   struct ProcessEachTask : public TaskQueue::Task {
     DBM* dbm;
+    AsyncDBM::CommonPostprocessor* postproc;
     DBM::RecordLambdaType rec_lambda;
     bool writable;
     std::promise<Status> promise;
     void Do() override {
       Status status = dbm->ProcessFirst(rec_lambda, writable);
+      if (postproc != nullptr) {
+        postproc->Postprocess("ProcessFirst", status);
+      }
       promise.set_value(std::move(status));
     }
   };
   auto task = std::make_unique<ProcessEachTask>();
   task->dbm = dbm_;
+  task->postproc = postproc_.get();
   task->rec_lambda = rec_lambda;
   task->writable = writable;
   auto future = task->promise.get_future();
@@ -749,17 +769,22 @@ inline std::future<std::pair<Status, std::unique_ptr<PROC>>> AsyncDBM::ProcessEa
     std::unique_ptr<PROC> proc, bool writable) {
   struct ProcessEachTask : public TaskQueue::Task {
     DBM* dbm;
+    AsyncDBM::CommonPostprocessor* postproc;
     std::unique_ptr<PROC> proc;
     bool writable;
     std::promise<std::pair<Status, std::unique_ptr<PROC>>> promise;
     void Do() override {
       Status status = dbm->ProcessEach(proc.get(), writable);
       proc->ProcessStatus(status);
+      if (postproc != nullptr) {
+        postproc->Postprocess("ProcessEach", status);
+      }
       promise.set_value(std::make_pair(std::move(status), std::move(proc)));
     }
   };
   auto task = std::make_unique<ProcessEachTask>();
   task->dbm = dbm_;
+  task->postproc = postproc_.get();
   task->proc = std::move(proc);
   task->writable = writable;
   auto future = task->promise.get_future();
@@ -771,16 +796,21 @@ inline std::future<Status> AsyncDBM::ProcessEach(
     DBM::RecordLambdaType rec_lambda, bool writable) {
   struct ProcessEachTask : public TaskQueue::Task {
     DBM* dbm;
+    AsyncDBM::CommonPostprocessor* postproc;
     DBM::RecordLambdaType rec_lambda;
     bool writable;
     std::promise<Status> promise;
     void Do() override {
       Status status = dbm->ProcessEach(rec_lambda, writable);
+      if (postproc != nullptr) {
+        postproc->Postprocess("ProcessEach", status);
+      }
       promise.set_value(std::move(status));
     }
   };
   auto task = std::make_unique<ProcessEachTask>();
   task->dbm = dbm_;
+  task->postproc = postproc_.get();
   task->rec_lambda = rec_lambda;
   task->writable = writable;
   auto future = task->promise.get_future();
@@ -794,6 +824,7 @@ inline std::future<std::pair<Status, std::vector<std::shared_ptr<PROC>>>> AsyncD
     bool writable) {
   struct ProcessMultiTask : public TaskQueue::Task {
     DBM* dbm;
+    AsyncDBM::CommonPostprocessor* postproc;
     std::vector<std::pair<std::string, std::shared_ptr<PROC>>> key_proc_pairs;
     bool writable;
     std::promise<std::pair<Status, std::vector<std::shared_ptr<PROC>>>> promise;
@@ -811,11 +842,15 @@ inline std::future<std::pair<Status, std::vector<std::shared_ptr<PROC>>>> AsyncD
       for (auto& proc : procs) {
         proc->ProcessStatus(status);
       }
+      if (postproc != nullptr) {
+        postproc->Postprocess("ProcessMulti", status);
+      }
       promise.set_value(std::make_pair(std::move(status), std::move(procs)));
     }
   };
   auto task = std::make_unique<ProcessMultiTask>();
   task->dbm = dbm_;
+  task->postproc = postproc_.get();
   task->key_proc_pairs.reserve(key_proc_pairs.size());
   for (auto& key_proc : key_proc_pairs) {
     task->key_proc_pairs.emplace_back(std::make_pair(
@@ -832,6 +867,7 @@ inline std::future<Status> AsyncDBM::ProcessMulti(
     bool writable) {
   struct ProcessMultiTask : public TaskQueue::Task {
     DBM* dbm;
+    AsyncDBM::CommonPostprocessor* postproc;
     std::vector<std::pair<std::string, DBM::RecordLambdaType>> key_lambda_pairs;
     bool writable;
     std::promise<Status> promise;
@@ -846,11 +882,15 @@ inline std::future<Status> AsyncDBM::ProcessMulti(
             std::string_view(key_lambda.first), &procs.back()));
       }
       Status status = dbm->ProcessMulti(key_proc_pairs, writable);
+      if (postproc != nullptr) {
+        postproc->Postprocess("ProcessMulti", status);
+      }
       promise.set_value(std::move(status));
     }
   };
   auto task = std::make_unique<ProcessMultiTask>();
   task->dbm = dbm_;
+  task->postproc = postproc_.get();
   task->key_lambda_pairs.reserve(key_lambda_pairs.size());
   for (auto& key_lambda : key_lambda_pairs) {
     task->key_lambda_pairs.emplace_back(std::make_pair(
-- 
2.43.0


From 73d74dde9d17f06122e60006bcf244ec4140190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:13 +0000
Subject: [PATCH 088/106] fix: stopping a task queue can hang by a lost wake-up

---
 tkrzw_thread_util.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index e769097..2f51578 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1520,7 +1520,10 @@ inline void TaskQueue::Stop(double timeout) {
     cond_.notify_all();
     SleepThread(0.01);
   }
-  running_.store(false);
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    running_.store(false);
+  }
   cond_.notify_all();
   for (auto& thread : threads_) {
     thread.join();
-- 
2.43.0


From 6c956fdb452cfa7e9fffc5aafeca37dd35c3f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:41 +0000
Subject: [PATCH 089/106] fix: a wait counter can miss the last notification
 and wait forever

---
 tkrzw_thread_util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 2f51578..725f097 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1560,6 +1560,7 @@ inline int32_t WaitCounter::Get() const {
 }
 
 inline void WaitCounter::Done(int32_t decrement) {
+  std::lock_guard<std::mutex> lock(mutex_);
   if (count_.fetch_sub(decrement) <= decrement) {
     cond_.notify_all();
   }
-- 
2.43.0


From 34d22e50f600a8f2eff6ed099b5f13054544604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:53 +0000
Subject: [PATCH 090/106] fix: signal brokers lose signals to single and
 prepared waiters

---
 tkrzw_thread_util.h | 175 +++++++++++++++++++++++++++-----------------
 1 file changed, 106 insertions(+), 69 deletions(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 725f097..b2e059a 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -18,6 +18,8 @@
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <list>
+#include <map>
 #include <queue>
 #include <set>
 #include <shared_mutex>
@@ -886,8 +888,15 @@ class SignalBroker final {
     bool Wait(double timeout = -1);
 
    private:
+    friend class SignalBroker;
     /** The broker object. */
     SignalBroker* broker_;
+    /** Whether signals to the object are received. */
+    bool receiving_;
+    /** Whether the thread is waiting. */
+    bool waiting_;
+    /** Whether a signal has been received. */
+    bool signaled_;
   };
 
   /**
@@ -904,14 +913,12 @@ class SignalBroker final {
   bool Send(bool all = true);
 
  private:
-  /** The number of waiting threads. */
-  int32_t wait_count_;
-  /** The mutex to guard the counter. */
+  /** The waiter objects in the order of construction. */
+  std::list<Waiter*> waiters_;
+  /** The mutex to guard the waiters. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
-  /** The mutex to guard notification. */
-  SpinSharedMutex notify_mutex_;
 };
 
 /**
@@ -951,10 +958,17 @@ class KeySignalBroker final {
     bool Wait(double timeout = -1);
 
    private:
+    friend class KeySignalBroker;
     /** The broker object. */
     KeySignalBroker* broker_;
     /** The key of the signal. */
     KEYTYPE key_;
+    /** Whether signals to the object are received. */
+    bool receiving_;
+    /** Whether the thread is waiting. */
+    bool waiting_;
+    /** Whether a signal has been received. */
+    bool signaled_;
   };
 
   /**
@@ -972,14 +986,12 @@ class KeySignalBroker final {
   bool Send(const KEYTYPE& key, bool all = true);
 
  private:
-  /** The set of event keys and the wait count. */
-  std::map<KEYTYPE, int32_t> counts_;
-  /** The mutex to guard the counter. */
+  /** The waiter objects of each key in the order of construction. */
+  std::map<KEYTYPE, std::list<Waiter*>> waiters_;
+  /** The mutex to guard the waiters. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
-  /** The mutex to guard notification. */
-  SpinSharedMutex notify_mutex_;
 };
 
 /**
@@ -1584,31 +1596,47 @@ inline bool WaitCounter::Wait(double timeout) {
   return true;
 }
 
-inline SignalBroker::SignalBroker() : wait_count_(false), mutex_(), cond_(), notify_mutex_() {}
+inline SignalBroker::SignalBroker() : waiters_(), mutex_(), cond_() {}
 
 inline bool SignalBroker::Send(bool all) {
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
-    if (wait_count_ == 0) {
-      return false;
+  std::lock_guard<std::mutex> lock(mutex_);
+  bool sent = false;
+  Waiter* prepared = nullptr;
+  for (auto* waiter : waiters_) {
+    if (!waiter->receiving_ || waiter->signaled_) {
+      continue;
+    }
+    if (!all && !waiter->waiting_) {
+      if (prepared == nullptr) {
+        prepared = waiter;
+      }
+      continue;
     }
-    wait_count_ = 0;
+    waiter->signaled_ = true;
+    sent = true;
+    if (!all) {
+      break;
+    }
+  }
+  if (!sent && prepared != nullptr) {
+    prepared->signaled_ = true;
+    sent = true;
   }
-  std::lock_guard lock(notify_mutex_);
-  if (all) {
+  if (sent) {
     cond_.notify_all();
-  } else {
-    cond_.notify_one();
   }
-  return true;
+  return sent;
 }
 
-inline SignalBroker::Waiter::Waiter(SignalBroker* broker) : broker_(broker) {
-  broker_->notify_mutex_.lock_shared();
+inline SignalBroker::Waiter::Waiter(SignalBroker* broker)
+    : broker_(broker), receiving_(true), waiting_(false), signaled_(false) {
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_.emplace_back(this);
 }
 
 inline SignalBroker::Waiter::~Waiter() {
-  broker_->notify_mutex_.unlock_shared();
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_.remove(this);
 }
 
 inline bool SignalBroker::Waiter::Wait(double timeout) {
@@ -1618,52 +1646,71 @@ inline bool SignalBroker::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->wait_count_++;
-  while (broker_->wait_count_ != 0) {
-    broker_->notify_mutex_.unlock_shared();
-    auto wait_rv = broker_->cond_.wait_until(lock, deadline);
-    broker_->notify_mutex_.lock_shared();
-    if (wait_rv == std::cv_status::timeout) {
-      if (broker_->wait_count_ == 0) {
-        return true;
-      }
-      broker_->wait_count_--;
-      return false;
-    }
+  receiving_ = true;
+  waiting_ = true;
+  const bool received = broker_->cond_.wait_until(lock, deadline, [&]() { return signaled_; });
+  waiting_ = false;
+  if (received) {
+    signaled_ = false;
+    receiving_ = false;
   }
-  return true;
+  return received;
 }
 
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::KeySignalBroker()
-    : counts_(), mutex_(), cond_(), notify_mutex_() {}
+    : waiters_(), mutex_(), cond_() {}
 
 template<typename KEYTYPE>
 inline bool KeySignalBroker<KEYTYPE>::Send(const KEYTYPE& key, bool all) {
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
-    if (counts_.erase(key) == 0) {
-      return false;
+  std::lock_guard<std::mutex> lock(mutex_);
+  const auto it = waiters_.find(key);
+  if (it == waiters_.end()) {
+    return false;
+  }
+  bool sent = false;
+  Waiter* prepared = nullptr;
+  for (auto* waiter : it->second) {
+    if (!waiter->receiving_ || waiter->signaled_) {
+      continue;
+    }
+    if (!all && !waiter->waiting_) {
+      if (prepared == nullptr) {
+        prepared = waiter;
+      }
+      continue;
+    }
+    waiter->signaled_ = true;
+    sent = true;
+    if (!all) {
+      break;
     }
   }
-  std::lock_guard lock(notify_mutex_);
-  if (all) {
+  if (!sent && prepared != nullptr) {
+    prepared->signaled_ = true;
+    sent = true;
+  }
+  if (sent) {
     cond_.notify_all();
-  } else {
-    cond_.notify_one();
   }
-  return true;
+  return sent;
 }
 
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::Waiter::Waiter(KeySignalBroker* broker, const KEYTYPE& key)
-    : broker_(broker), key_(key) {
-  broker_->notify_mutex_.lock_shared();
+    : broker_(broker), key_(key), receiving_(true), waiting_(false), signaled_(false) {
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  broker_->waiters_[key_].emplace_back(this);
 }
 
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::Waiter::~Waiter() {
-  broker_->notify_mutex_.unlock_shared();
+  std::lock_guard<std::mutex> lock(broker_->mutex_);
+  const auto it = broker_->waiters_.find(key_);
+  it->second.remove(this);
+  if (it->second.empty()) {
+    broker_->waiters_.erase(it);
+  }
 }
 
 template<typename KEYTYPE>
@@ -1674,25 +1721,15 @@ inline bool KeySignalBroker<KEYTYPE>::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->counts_[key_]++;
-  while (broker_->counts_.find(key_) != broker_->counts_.end()) {
-    broker_->notify_mutex_.unlock_shared();
-    auto wait_rv = broker_->cond_.wait_until(lock, deadline);
-    broker_->notify_mutex_.lock_shared();
-    if (wait_rv == std::cv_status::timeout) {
-      auto it = broker_->counts_.find(key_);
-      if (it == broker_->counts_.end()) {
-        return true;
-      }
-      if (it->second > 1) {
-        it->second--;
-      } else {
-        broker_->counts_.erase(it);
-      }
-      return false;
-    }
-  }
-  return true;
+  receiving_ = true;
+  waiting_ = true;
+  const bool received = broker_->cond_.wait_until(lock, deadline, [&]() { return signaled_; });
+  waiting_ = false;
+  if (received) {
+    signaled_ = false;
+    receiving_ = false;
+  }
+  return received;
 }
 
 template<typename KEYTYPE>
-- 
2.43.0


From 8fd32ecb332e056dc919e3ee3fdeea56173a2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 091/106] fix: index GetValues loses values under comparators
 with several equal keys

---
 tkrzw_index.h | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/tkrzw_index.h b/tkrzw_index.h
index b549083..7e9253f 100644
--- a/tkrzw_index.h
+++ b/tkrzw_index.h
@@ -20,6 +20,7 @@
 #include <string>
 #include <string_view>
 #include <tuple>
+#include <typeinfo>
 #include <utility>
 #include <vector>
 
@@ -937,8 +938,10 @@ inline bool FileIndex::Check(std::string_view key, std::string_view value) {
 
 inline std::vector<std::string> FileIndex::GetValues(std::string_view key, size_t max) {
   std::vector<std::string> values;
+  const KeyComparator comparator = dbm_.GetKeyComparator();
+  const std::string first_record = SerializeStrPair(key, "");
   auto iter = dbm_.MakeIterator();
-  iter->Jump(SerializeStrPair(key, ""));
+  iter->Jump(first_record);
   std::string record;
   while (true) {
     if (max > 0 && values.size() >= max) {
@@ -949,7 +952,8 @@ inline std::vector<std::string> FileIndex::GetValues(std::string_view key, size_
     }
     std::string_view rec_key, rec_value;
     DeserializeStrPair(record, &rec_key, &rec_value);
-    if (rec_key != key) {
+    if (rec_key != key &&
+        (comparator == nullptr || comparator(SerializeStrPair(rec_key, ""), first_record) != 0)) {
       break;
     }
     values.emplace_back(rec_value);
@@ -1076,8 +1080,16 @@ inline bool PolyIndex::Check(std::string_view key, std::string_view value) {
 
 inline std::vector<std::string> PolyIndex::GetValues(std::string_view key, size_t max) {
   std::vector<std::string> values;
+  KeyComparator comparator = nullptr;
+  const DBM* dbm = dbm_.GetInternalDBM();
+  if (dbm != nullptr && typeid(*dbm) == typeid(TreeDBM)) {
+    comparator = dynamic_cast<const TreeDBM*>(dbm)->GetKeyComparator();
+  } else if (dbm != nullptr && typeid(*dbm) == typeid(BabyDBM)) {
+    comparator = dynamic_cast<const BabyDBM*>(dbm)->GetKeyComparator();
+  }
+  const std::string first_record = SerializeStrPair(key, "");
   auto iter = dbm_.MakeIterator();
-  iter->Jump(SerializeStrPair(key, ""));
+  iter->Jump(first_record);
   std::string record;
   while (true) {
     if (max > 0 && values.size() >= max) {
@@ -1088,7 +1100,8 @@ inline std::vector<std::string> PolyIndex::GetValues(std::string_view key, size_
     }
     std::string_view rec_key, rec_value;
     DeserializeStrPair(record, &rec_key, &rec_value);
-    if (rec_key != key) {
+    if (rec_key != key &&
+        (comparator == nullptr || comparator(SerializeStrPair(rec_key, ""), first_record) != 0)) {
       break;
     }
     values.emplace_back(rec_value);
@@ -1190,8 +1203,10 @@ inline bool MemIndex::Check(std::string_view key, std::string_view value) {
 
 inline std::vector<std::string> MemIndex::GetValues(std::string_view key, size_t max) {
   std::vector<std::string> values;
+  const KeyComparator comparator = dbm_.GetKeyComparator();
+  const std::string first_record = SerializeStrPair(key, "");
   auto iter = dbm_.MakeIterator();
-  iter->Jump(SerializeStrPair(key, ""));
+  iter->Jump(first_record);
   std::string record;
   while (true) {
     if (max > 0 && values.size() >= max) {
@@ -1202,7 +1217,8 @@ inline std::vector<std::string> MemIndex::GetValues(std::string_view key, size_t
     }
     std::string_view rec_key, rec_value;
     DeserializeStrPair(record, &rec_key, &rec_value);
-    if (rec_key != key) {
+    if (rec_key != key &&
+        (comparator == nullptr || comparator(SerializeStrPair(rec_key, ""), first_record) != 0)) {
       break;
     }
     values.emplace_back(rec_value);
-- 
2.43.0


From a1a4ca85a0b71dd6db5921370991dbbdb6d087d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 092/106] fix: StdIndex::GetValues misses values before the
 default value

---
 tkrzw_index.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_index.h b/tkrzw_index.h
index 7e9253f..b4fb151 100644
--- a/tkrzw_index.h
+++ b/tkrzw_index.h
@@ -14,6 +14,7 @@
 #ifndef _TKRZW_INDEX_H
 #define _TKRZW_INDEX_H
 
+#include <iterator>
 #include <list>
 #include <shared_mutex>
 #include <set>
@@ -1310,6 +1311,9 @@ inline std::vector<VALUETYPE> StdIndex<KEYTYPE, VALUETYPE, CMPTYPE>::GetValues(
   const auto& const_records = records_;
   std::vector<VALUETYPE> values;
   auto it = records_.lower_bound(std::make_pair(key, VALUETYPE()));
+  while (it != const_records.begin() && std::prev(it)->first == key) {
+    --it;
+  }
   while (it != const_records.end()) {
     if (max > 0 && values.size() >= max) {
       break;
-- 
2.43.0


From 740cacb534793385a29cf9f0d853c613112255c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:44 +0000
Subject: [PATCH 093/106] fix: rebuilding with a new cipher key reads the old
 records by the new key

---
 tkrzw_dbm_hash.cc | 65 ++++++++++++++++++++++++++++++-----------------
 tkrzw_dbm_hash.h  | 10 ++++++--
 2 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 8d42e43..d904075 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -132,13 +132,13 @@ class HashDBMImpl final {
       int64_t record_base, int64_t end_offset);
   Status ImportFromFileForward(
       File* file, bool skip_broken_records,
-      int64_t record_base, int64_t end_offset);
+      int64_t record_base, int64_t end_offset, const std::string* cipher_key);
   Status ImportFromFileBackward(
       const std::string& path, bool skip_broken_records,
       int64_t record_base, int64_t end_offset);
   Status ImportFromFileBackward(
       File* file, bool skip_broken_records,
-      int64_t record_base, int64_t end_offset);
+      int64_t record_base, int64_t end_offset, const std::string* cipher_key);
   Status ValidateHashBuckets();
   Status ValidateRecords(int64_t record_base, int64_t end_offset);
   Status CheckZeroRegion(int64_t offset, int64_t end_offset);
@@ -167,10 +167,10 @@ class HashDBMImpl final {
   Status ReadNextBucketRecords(HashDBMIteratorImpl* iter);
   Status ImportFromFileForwardImpl(
       File* file, bool skip_broken_records,
-      int64_t record_base, int64_t end_offset);
+      int64_t record_base, int64_t end_offset, const std::string& cipher_key);
   Status ImportFromFileBackwardImpl(
       File* file, bool skip_broken_records,
-      int64_t record_base, int64_t end_offset,
+      int64_t record_base, int64_t end_offset, const std::string& cipher_key,
       const std::string& offset_path, const std::string& dead_path);
   Status ValidateHashBucketsImpl();
   Status ValidateRecordsImpl(int64_t record_base, int64_t end_offset,
@@ -992,6 +992,7 @@ Status HashDBMImpl::ImportFromFileForward(
     const std::string& path, bool skip_broken_records,
     int64_t record_base, int64_t end_offset) {
   std::unique_ptr<File> file;
+  std::string cipher_key;
   {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     if (!open_) {
@@ -1005,19 +1006,22 @@ Status HashDBMImpl::ImportFromFileForward(
     }
     ScopedHashLock record_lock(record_mutex_, false);
     file = file_->MakeFile();
+    cipher_key = cipher_key_;
   }
   Status status = file->Open(path, false, File::OPEN_NO_LOCK);
   if (status != Status::SUCCESS) {
     return status;
   }
-  status |= ImportFromFileForwardImpl(file.get(), skip_broken_records, record_base, end_offset);
+  status |= ImportFromFileForwardImpl(
+      file.get(), skip_broken_records, record_base, end_offset, cipher_key);
   status |= file->Close();
   return status;
 }
 
 Status HashDBMImpl::ImportFromFileForward(
     File* file, bool skip_broken_records,
-    int64_t record_base, int64_t end_offset) {
+    int64_t record_base, int64_t end_offset, const std::string* cipher_key) {
+  std::string actual_cipher_key;
   {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     if (!open_) {
@@ -1029,14 +1033,16 @@ Status HashDBMImpl::ImportFromFileForward(
     if (!healthy_) {
       return Status(Status::PRECONDITION_ERROR, "not healthy database");
     }
+    actual_cipher_key = cipher_key == nullptr ? cipher_key_ : *cipher_key;
   }
-  return ImportFromFileForwardImpl(file, skip_broken_records, record_base, end_offset);
+  return ImportFromFileForwardImpl(
+      file, skip_broken_records, record_base, end_offset, actual_cipher_key);
 }
 
 Status HashDBMImpl::ImportFromFileBackward(
     const std::string& path, bool skip_broken_records,
     int64_t record_base, int64_t end_offset) {
-  std::string offset_path, dead_path;
+  std::string offset_path, dead_path, cipher_key;
   std::unique_ptr<File> file;
   {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
@@ -1051,6 +1057,7 @@ Status HashDBMImpl::ImportFromFileBackward(
     }
     ScopedHashLock record_lock(record_mutex_, false);
     file = file_->MakeFile();
+    cipher_key = cipher_key_;
     offset_path = path_ + ".tmp.offset";
     dead_path = path_ + ".tmp.dead";
   }
@@ -1059,15 +1066,16 @@ Status HashDBMImpl::ImportFromFileBackward(
     return status;
   }
   status = ImportFromFileBackwardImpl(
-      file.get(), skip_broken_records, record_base, end_offset, offset_path, dead_path);
+      file.get(), skip_broken_records, record_base, end_offset, cipher_key,
+      offset_path, dead_path);
   status |= file->Close();
   return status;
 }
 
 Status HashDBMImpl::ImportFromFileBackward(
     File* file, bool skip_broken_records,
-    int64_t record_base, int64_t end_offset) {
-  std::string offset_path, dead_path;
+    int64_t record_base, int64_t end_offset, const std::string* cipher_key) {
+  std::string offset_path, dead_path, actual_cipher_key;
   {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     if (!open_) {
@@ -1079,11 +1087,12 @@ Status HashDBMImpl::ImportFromFileBackward(
     if (!healthy_) {
       return Status(Status::PRECONDITION_ERROR, "not healthy database");
     }
+    actual_cipher_key = cipher_key == nullptr ? cipher_key_ : *cipher_key;
     offset_path = path_ + ".tmp.offset";
     dead_path = path_ + ".tmp.dead";
   }
   return ImportFromFileBackwardImpl(file, skip_broken_records, record_base, end_offset,
-                                    offset_path, dead_path);
+                                    actual_cipher_key, offset_path, dead_path);
 }
 
 Status HashDBMImpl::ValidateHashBuckets() {
@@ -1739,9 +1748,11 @@ Status HashDBMImpl::RebuildImpl(
     end_offset = file_->GetSizeSimple();
   }
   if (in_place) {
-    status = tmp_dbm.ImportFromFileForward(file_.get(), skip_broken_records, -1, end_offset);
+    status = tmp_dbm.ImportFromFileForward(
+        file_.get(), skip_broken_records, -1, end_offset, &cipher_key_);
   } else {
-    status = tmp_dbm.ImportFromFileBackward(file_.get(), skip_broken_records, -1, end_offset);
+    status = tmp_dbm.ImportFromFileBackward(
+        file_.get(), skip_broken_records, -1, end_offset, &cipher_key_);
   }
   if (sync_hard) {
     status |= tmp_dbm.Synchronize(true);
@@ -1759,7 +1770,8 @@ Status HashDBMImpl::RebuildImpl(
     if (begin_offset >= end_offset - REBUILD_BLOCKING_ALLOWANCE) {
       break;
     }
-    status = tmp_dbm.ImportFromFileForward(file_.get(), false, begin_offset, end_offset);
+    status = tmp_dbm.ImportFromFileForward(
+        file_.get(), false, begin_offset, end_offset, &cipher_key_);
     if (sync_hard) {
       status |= tmp_dbm.Synchronize(true);
     }
@@ -1773,7 +1785,8 @@ Status HashDBMImpl::RebuildImpl(
     ScopedHashLock record_lock(record_mutex_, true);
     end_offset = file_->GetSizeSimple();
     if (begin_offset < end_offset) {
-      status = tmp_dbm.ImportFromFileForward(file_.get(), false, begin_offset, end_offset);
+      status = tmp_dbm.ImportFromFileForward(
+          file_.get(), false, begin_offset, end_offset, &cipher_key_);
       if (status != Status::SUCCESS) {
         CleanUp();
         return status;
@@ -1909,7 +1922,7 @@ Status HashDBMImpl::ReadNextBucketRecords(HashDBMIteratorImpl* iter) {
 
 Status HashDBMImpl::ImportFromFileForwardImpl(
     File* file, bool skip_broken_records,
-    int64_t record_base, int64_t end_offset) {
+    int64_t record_base, int64_t end_offset, const std::string& cipher_key) {
   int64_t tmp_record_base = 0;
   int32_t static_flags = 0;
   int32_t offset_width = 0;
@@ -1924,7 +1937,7 @@ Status HashDBMImpl::ImportFromFileForwardImpl(
     record_base = tmp_record_base;
   }
   const int32_t crc_width = HashDBM::GetCRCWidthFromStaticFlags(static_flags);
-  auto compressor = HashDBM::MakeCompressorFromStaticFlags(static_flags, cipher_key_);
+  auto compressor = HashDBM::MakeCompressorFromStaticFlags(static_flags, cipher_key);
   if (end_offset == 0) {
     if (last_sync_size < record_base || last_sync_size % (1 << align_pow) != 0) {
       end_offset = -1;
@@ -1965,7 +1978,7 @@ Status HashDBMImpl::ImportFromFileForwardImpl(
 
 Status HashDBMImpl::ImportFromFileBackwardImpl(
     File* file, bool skip_broken_records,
-    int64_t record_base, int64_t end_offset,
+    int64_t record_base, int64_t end_offset, const std::string& cipher_key,
     const std::string& offset_path, const std::string& dead_path) {
   int64_t tmp_record_base = 0;
   int32_t static_flags = 0;
@@ -1981,7 +1994,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
     record_base = tmp_record_base;
   }
   const int32_t crc_width = HashDBM::GetCRCWidthFromStaticFlags(static_flags);
-  auto compressor = HashDBM::MakeCompressorFromStaticFlags(static_flags, cipher_key_);
+  auto compressor = HashDBM::MakeCompressorFromStaticFlags(static_flags, cipher_key);
   if (end_offset == 0) {
     if (last_sync_size < record_base || last_sync_size % (1 << align_pow) != 0) {
       end_offset = -1;
@@ -2625,9 +2638,11 @@ Status HashDBM::ImportFromFileForward(
 }
 
 Status HashDBM::ImportFromFileForward(
-    File* file, bool skip_broken_records, int64_t record_base, int64_t end_offset) {
+    File* file, bool skip_broken_records, int64_t record_base, int64_t end_offset,
+    const std::string* cipher_key) {
   assert(file != nullptr);
-  return impl_->ImportFromFileForward(file, skip_broken_records, record_base, end_offset);
+  return impl_->ImportFromFileForward(
+      file, skip_broken_records, record_base, end_offset, cipher_key);
 }
 
 Status HashDBM::ImportFromFileBackward(
@@ -2636,9 +2651,11 @@ Status HashDBM::ImportFromFileBackward(
 }
 
 Status HashDBM::ImportFromFileBackward(
-    File* file, bool skip_broken_records, int64_t record_base, int64_t end_offset) {
+    File* file, bool skip_broken_records, int64_t record_base, int64_t end_offset,
+    const std::string* cipher_key) {
   assert(file != nullptr);
-  return impl_->ImportFromFileBackward(file, skip_broken_records, record_base, end_offset);
+  return impl_->ImportFromFileBackward(
+      file, skip_broken_records, record_base, end_offset, cipher_key);
 }
 
 Status HashDBM::ValidateHashBuckets() {
diff --git a/tkrzw_dbm_hash.h b/tkrzw_dbm_hash.h
index 4bf0d18..5bbe9b5 100644
--- a/tkrzw_dbm_hash.h
+++ b/tkrzw_dbm_hash.h
@@ -706,11 +706,14 @@ class HashDBM final : public DBM {
    * of the record section.
    * @param end_offset The exclusive end offset of records to read.  Negative means unlimited.
    * 0 means the size when the database is synched or closed properly.
+   * @param cipher_key The encryption key of the other hash database file.  If it is nullptr, the
+   * key of this database is used.
    * @return The result status.
    * @details Precondition: The database is opened.
    */
   Status ImportFromFileForward(
-      File* file, bool skip_broken_records, int64_t record_base, int64_t end_offset);
+      File* file, bool skip_broken_records, int64_t record_base, int64_t end_offset,
+      const std::string* cipher_key = nullptr);
 
   /**
    * Imports records from another hash database file, in a forward manner.
@@ -737,11 +740,14 @@ class HashDBM final : public DBM {
    * of the record section.
    * @param end_offset The exclusive end offset of records to read.  Negative means unlimited.
    * 0 means the size when the database is synched or closed properly.
+   * @param cipher_key The encryption key of the other hash database file.  If it is nullptr, the
+   * key of this database is used.
    * @return The result status.
    * @details Precondition: The database is opened.
    */
   Status ImportFromFileBackward(
-      File* file, bool skip_broken_records, int64_t record_base, int64_t end_offset);
+      File* file, bool skip_broken_records, int64_t record_base, int64_t end_offset,
+      const std::string* cipher_key = nullptr);
 
   /**
    * Imports records from another hash database file, in a backward manner.
-- 
2.43.0


From 3e224e1c3deeb78d516324e30cd3a0e8a10645c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:49 +0000
Subject: [PATCH 094/106] fix: ShardDBM makes surplus shards when opened again
 after a failed opening

---
 tkrzw_dbm_shard.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 0afeb65..9a41cc7 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -104,6 +104,7 @@ Status ShardDBM::OpenAdvanced(
       for (int32_t j = i - 1; j >= 0; j--) {
         dbms_[j]->Close();
       }
+      dbms_.clear();
       return status;
     }
   }
@@ -118,6 +119,7 @@ Status ShardDBM::OpenAdvanced(
     for (int32_t i = dbms_.size() - 1; i >= 0; i--) {
       dbms_[i]->Close();
     }
+    dbms_.clear();
     return status;
   }
   open_ = true;
-- 
2.43.0


From 7d139a4eaef131688162781f816eda7a16b8f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:49 +0000
Subject: [PATCH 095/106] fix: ShardDBM counts temporary files of the first
 shard as shards

---
 tkrzw_dbm_shard.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 9a41cc7..31d1506 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -998,7 +998,8 @@ Status ShardDBM::GetNumberOfShards(const std::string& path, int32_t* num_shards)
   std::sort(child_names.begin(), child_names.end());
   int32_t cand_num_shards = 0;
   for (const auto& child_name : child_names) {
-    if (tkrzw::StrBeginsWith(child_name, zero_name)) {
+    if (tkrzw::StrBeginsWith(child_name, zero_name) &&
+        child_name.find_first_not_of("0123456789", zero_name.size()) == std::string::npos) {
       if (cand_num_shards > 0) {
         return Status(Status::DUPLICATION_ERROR, "multiple candidates");
       }
-- 
2.43.0


From 66ba8518889b9c8a90e78f0e135ac5d401297766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:40 +0000
Subject: [PATCH 096/106] fix: the reducer name "remove" is case-sensitive

---
 tkrzw_dbm_poly.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index f1406d8..738cd56 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -139,7 +139,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
 
 static SkipDBM::ReducerType GetReducerByName(const std::string& func_name) {
   const std::string lower_name = StrLowerCase(func_name);
-  if (lower_name == "reduceremove" || func_name == "remove") {
+  if (lower_name == "reduceremove" || lower_name == "remove") {
     return SkipDBM::ReduceRemove;
   } else if (lower_name == "reducetofirst" || lower_name == "first") {
     return SkipDBM::ReduceToFirst;
-- 
2.43.0


From 4550d136fb80859a5af4cc1a29c0bdc75c66c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:53 +0000
Subject: [PATCH 097/106] fix: iterators of TreeDBM and SkipDBM update
 read-only databases

---
 tkrzw_dbm_skip.cc | 6 ++++++
 tkrzw_dbm_tree.cc | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 929c43b..90bdd62 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1744,6 +1744,12 @@ Status SkipDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
     if (record_offset_ < 0 || record_offset_ >= dbm_->file_->GetSizeSimple()) {
       return Status(Status::NOT_FOUND_ERROR);
     }
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
     SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
     Status status = rec.ReadMetadataKey(record_offset_, record_index_);
     if (status != Status::SUCCESS) {
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index bf713a0..421e581 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2325,6 +2325,14 @@ Status TreeDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   if (key_ptr_ == nullptr) {
     return Status(Status::NOT_FOUND_ERROR);
   }
+  if (writable) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   const std::string_view key(key_ptr_, key_size_);
   return ProcessImpl(key, proc, writable);
 }
-- 
2.43.0


From 885061667ae16396029866a29b48c4056e717a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:36 +0000
Subject: [PATCH 098/106] fix: opening with OPEN_TRUNCATE discards data of a
 file locked by another process

---
 tkrzw_file_mmap.cc | 28 ++++++++++++++++++++--------
 tkrzw_file_pos.cc  | 28 ++++++++++++++++++++--------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index f0e2952..be7b9ee 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -110,9 +110,6 @@ Status MemoryMapParallelFileImpl::Open(
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   const int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
@@ -147,7 +144,16 @@ Status MemoryMapParallelFileImpl::Open(
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "not a regular file");
   }
-  const int64_t file_size = sbuf.st_size;
+  int64_t file_size = sbuf.st_size;
+  if (writable && (options & File::OPEN_TRUNCATE) && file_size > 0) {
+    // Existing data is discarded only after the lock is obtained.
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+    file_size = 0;
+  }
   if (file_size > MAX_MEMORY_SIZE) {
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "too large file");
@@ -691,9 +697,6 @@ Status MemoryMapAtomicFileImpl::Open(
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   const int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
@@ -728,7 +731,16 @@ Status MemoryMapAtomicFileImpl::Open(
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "not a regular file");
   }
-  const int64_t file_size = sbuf.st_size;
+  int64_t file_size = sbuf.st_size;
+  if (writable && (options & File::OPEN_TRUNCATE) && file_size > 0) {
+    // Existing data is discarded only after the lock is obtained.
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+    file_size = 0;
+  }
   if (file_size > MAX_MEMORY_SIZE) {
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "too large file");
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index d32cba2..395e655 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -133,9 +133,6 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   if (access_options_ & PositionalFile::ACCESS_DIRECT) {
     SetDirectAccessToOpenFlag(&oflags);
@@ -180,7 +177,16 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "not a regular file");
   }
-  const int64_t file_size = sbuf.st_size;
+  int64_t file_size = sbuf.st_size;
+  if (writable && (options & File::OPEN_TRUNCATE) && file_size > 0) {
+    // Existing data is discarded only after the lock is obtained.
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+    file_size = 0;
+  }
   if (file_size > MAX_MEMORY_SIZE) {
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "too large file");
@@ -866,9 +872,6 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
     if (!(options & File::OPEN_NO_CREATE)) {
       oflags |= O_CREAT;
     }
-    if (options & File::OPEN_TRUNCATE) {
-      oflags |= O_TRUNC;
-    }
   }
   if (access_options_ & PositionalFile::ACCESS_DIRECT) {
     SetDirectAccessToOpenFlag(&oflags);
@@ -910,7 +913,16 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "not a regular file");
   }
-  const int64_t file_size = sbuf.st_size;
+  int64_t file_size = sbuf.st_size;
+  if (writable && (options & File::OPEN_TRUNCATE) && file_size > 0) {
+    // Existing data is discarded only after the lock is obtained.
+    const Status status = TruncateFile(fd, 0);
+    if (status != Status::SUCCESS) {
+      close(fd);
+      return status;
+    }
+    file_size = 0;
+  }
   if (file_size > MAX_MEMORY_SIZE) {
     close(fd);
     return Status(Status::INFEASIBLE_ERROR, "too large file");
-- 
2.43.0


From 8325657c36ab87f77f9ee5ee8aa9f2f6685fd7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:58 +0000
Subject: [PATCH 099/106] fix: an opener waiting for the lock gets a file which
 has been replaced meanwhile

---
 tkrzw_file_mmap.cc     | 30 ++++++++++++++++++++++++++++--
 tkrzw_file_pos.cc      | 30 ++++++++++++++++++++++++++++--
 tkrzw_sys_util_posix.h | 17 +++++++++++++++++
 3 files changed, 73 insertions(+), 4 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index be7b9ee..6c1c85f 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -111,7 +111,7 @@ Status MemoryMapParallelFileImpl::Open(
       oflags |= O_CREAT;
     }
   }
-  const int32_t fd = open(path.c_str(), oflags, FILEPERM);
+  int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
     return GetErrnoStatus("open", errno);
   }
@@ -131,6 +131,19 @@ Status MemoryMapParallelFileImpl::Open(
       close(fd);
       return status;
     }
+    while (!IsSameFile(fd, path)) {
+      // The file has been replaced or removed by another process before locking.
+      close(fd);
+      fd = open(path.c_str(), oflags, FILEPERM);
+      if (fd < 0) {
+        return GetErrnoStatus("open", errno);
+      }
+      if (fcntl(fd, flcmd, &flbuf) != 0) {
+        const Status status = GetErrnoStatus("fcntl-lock", errno);
+        close(fd);
+        return status;
+      }
+    }
   }
 
   // Checks the file size and type.
@@ -698,7 +711,7 @@ Status MemoryMapAtomicFileImpl::Open(
       oflags |= O_CREAT;
     }
   }
-  const int32_t fd = open(path.c_str(), oflags, FILEPERM);
+  int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
     return GetErrnoStatus("open", errno);
   }
@@ -718,6 +731,19 @@ Status MemoryMapAtomicFileImpl::Open(
       close(fd);
       return status;
     }
+    while (!IsSameFile(fd, path)) {
+      // The file has been replaced or removed by another process before locking.
+      close(fd);
+      fd = open(path.c_str(), oflags, FILEPERM);
+      if (fd < 0) {
+        return GetErrnoStatus("open", errno);
+      }
+      if (fcntl(fd, flcmd, &flbuf) != 0) {
+        const Status status = GetErrnoStatus("fcntl-lock", errno);
+        close(fd);
+        return status;
+      }
+    }
   }
 
   // Checks the file size and type.
diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 395e655..e9b4337 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -140,7 +140,7 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
   if (access_options_ & PositionalFile::ACCESS_SYNC) {
     oflags |= O_SYNC;
   }
-  const int32_t fd = open(path.c_str(), oflags, FILEPERM);
+  int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
     return GetErrnoStatus("open", errno);
   }
@@ -164,6 +164,19 @@ Status PositionalParallelFileImpl::Open(const std::string& path, bool writable,
       close(fd);
       return status;
     }
+    while (!IsSameFile(fd, path)) {
+      // The file has been replaced or removed by another process before locking.
+      close(fd);
+      fd = open(path.c_str(), oflags, FILEPERM);
+      if (fd < 0) {
+        return GetErrnoStatus("open", errno);
+      }
+      if (fcntl(fd, flcmd, &flbuf) != 0) {
+        const Status status = GetErrnoStatus("fcntl-lock", errno);
+        close(fd);
+        return status;
+      }
+    }
   }
 
   // Checks the file size and type.
@@ -879,7 +892,7 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
   if (access_options_ & PositionalFile::ACCESS_SYNC) {
     oflags |= O_SYNC;
   }
-  const int32_t fd = open(path.c_str(), oflags, FILEPERM);
+  int32_t fd = open(path.c_str(), oflags, FILEPERM);
   if (fd < 0) {
     return GetErrnoStatus("open", errno);
   }
@@ -900,6 +913,19 @@ Status PositionalAtomicFileImpl::Open(const std::string& path, bool writable, in
       close(fd);
       return status;
     }
+    while (!IsSameFile(fd, path)) {
+      // The file has been replaced or removed by another process before locking.
+      close(fd);
+      fd = open(path.c_str(), oflags, FILEPERM);
+      if (fd < 0) {
+        return GetErrnoStatus("open", errno);
+      }
+      if (fcntl(fd, flcmd, &flbuf) != 0) {
+        const Status status = GetErrnoStatus("fcntl-lock", errno);
+        close(fd);
+        return status;
+      }
+    }
   }
 
   // Checks the file size and type.
diff --git a/tkrzw_sys_util_posix.h b/tkrzw_sys_util_posix.h
index 9ce74f1..a34f3d2 100644
--- a/tkrzw_sys_util_posix.h
+++ b/tkrzw_sys_util_posix.h
@@ -96,6 +96,23 @@ inline Status TruncateFile(int32_t fd, int64_t length) {
   return Status(Status::SUCCESS);
 }
 
+/**
+ * Checks whether an opened file is what the path refers to.
+ * @param fd The file descriptor.
+ * @param path The path which was used to open the file.
+ * @return True if the path still refers to the opened file.
+ */
+inline bool IsSameFile(int32_t fd, const std::string& path) {
+  struct stat fd_sbuf, path_sbuf;
+  if (fstat(fd, &fd_sbuf) != 0) {
+    return true;
+  }
+  if (stat(path.c_str(), &path_sbuf) != 0) {
+    return errno != ENOENT;
+  }
+  return fd_sbuf.st_dev == path_sbuf.st_dev && fd_sbuf.st_ino == path_sbuf.st_ino;
+}
+
 }  // namespace tkrzw
 
 #endif  // _TKRZW_SYS_UTIL_POSIX_H
-- 
2.43.0


From 8d0245fa06963cf3c13c40e1dc6e8a769ba252dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:29 +0000
Subject: [PATCH 100/106] fix: PolyDBM::ProcessMulti crashes if the database is
 not opened

---
 tkrzw_dbm_poly.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index 738cd56..e39f134 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -633,6 +633,9 @@ Status PolyDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
 Status PolyDBM::ProcessMulti(
     const std::vector<std::pair<std::string_view, RecordProcessor*>>& key_proc_pairs,
     bool writable) {
+  if (dbm_ == nullptr) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   return dbm_->ProcessMulti(key_proc_pairs, writable);
 }
 
-- 
2.43.0


From 40a94bcc19fb40258fccb77ff4d7566c97cc6da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:29 +0000
Subject: [PATCH 101/106] fix: ShardDBM ProcessFirst and CompareExchangeMulti
 do not check that the database is opened

---
 tkrzw_dbm_shard.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 31d1506..767118d 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -199,6 +199,9 @@ Status ShardDBM::Append(std::string_view key, std::string_view value, std::strin
 
 Status ShardDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
   assert(proc != nullptr);
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   std::unique_ptr<ShardDBM::Iterator> iter(new Iterator(&dbms_));
   Status status = iter->First();
   if (status != Status::SUCCESS) {
@@ -254,6 +257,9 @@ Status ShardDBM::ProcessMulti(
 Status ShardDBM::CompareExchangeMulti(
     const std::vector<std::pair<std::string_view, std::string_view>>& expected,
     const std::vector<std::pair<std::string_view, std::string_view>>& desired) {
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   typedef std::pair<std::string_view, std::string_view> Condition;
   typedef std::pair<std::vector<Condition>, std::vector<Condition>> ConditionListPair;
   std::map<int32_t, ConditionListPair> shard_conditions;
-- 
2.43.0


From c045e1fe6fe222cef036720e98bebd2c23d8d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:41 +0000
Subject: [PATCH 102/106] fix: MessageQueue::UpdateTimestamp succeeds on a
 queue which is not opened or not writable

---
 tkrzw_message_queue.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 9701142..3ca0051 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -336,6 +336,12 @@ Status MessageQueueImpl::UpdateTimestamp(int64_t timestamp) {
     return Status(Status::INVALID_ARGUMENT_ERROR, "out-of-range timestamp");
   }
   std::lock_guard lock(mutex_);
+  if (files_.empty()) {
+    return Status(Status::PRECONDITION_ERROR, "not opened message queue");
+  }
+  if (read_only_) {
+    return Status(Status::PRECONDITION_ERROR, "not writable message queue");
+  }
   timestamp_ = std::max(timestamp, timestamp_);
   return Status(Status::SUCCESS);
 }
-- 
2.43.0


From 8dc1861a42e80f9b40d1c1e58595289a9b75c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:23 +0000
Subject: [PATCH 103/106] fix: iterators of HashDBM update unhealthy databases

---
 tkrzw_dbm_hash.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d904075..b60f55d 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -2388,6 +2388,14 @@ Status HashDBMIteratorImpl::Next() {
 
 Status HashDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (writable && dbm_->open_) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   const Status status = ReadKeys();
   if (status != Status::SUCCESS) {
     return status;
-- 
2.43.0


From 1f4261672ab7c211bb74f5aa1887f48ef40349ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:59 +0000
Subject: [PATCH 104/106] fix: FlatRecordReader allocates whatever record size
 a damaged file tells

---
 tkrzw_file_util.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 7ef968c..055457b 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1407,6 +1407,10 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
     offset_ += sizeof(uint8_t) + step + value_size;
     return Status(Status::SUCCESS);
   }
+  if (value_size > static_cast<uint64_t>(
+          file_size - offset_ - static_cast<int64_t>(sizeof(uint8_t) + step))) {
+    return Status(Status::BROKEN_DATA_ERROR, "too short record data");
+  }
   data_size_ = 0;
   index_ = 0;
   delete[] buffer_;
-- 
2.43.0


From 05c0742c1c2fe41ac1eae0108fa4a6337d23cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:59 +0000
Subject: [PATCH 105/106] fix: HashDBM writes buckets beyond the end of the
 file if it cannot be extended

---
 tkrzw_dbm_hash.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index b60f55d..398115d 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1407,6 +1407,9 @@ Status HashDBMImpl::InitializeBuckets() {
   int64_t offset = METADATA_SIZE;
   int64_t size = record_base_ - offset;
   Status status = file_->Truncate(record_base_);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   char buf[8192];
   std::memset(buf, 0, sizeof(buf));
   while (size > 0) {
-- 
2.43.0


From b41cf6a9a09c924ffafce9b5b55abe7f2afad8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:23 +0000
Subject: [PATCH 106/106] fix: SkipDBM::RestoreDatabase overflows the read
 buffer if the metadata is damaged

---
 tkrzw_dbm_skip.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 90bdd62..8b00f36 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -2218,6 +2218,11 @@ Status SkipDBM::RestoreDatabase(
     step_unit = old_step_unit;
     max_level = old_max_level;
   }
+  if (old_offset_width < MIN_OFFSET_WIDTH || old_offset_width > MAX_OFFSET_WIDTH ||
+      old_step_unit < MIN_STEP_UNIT || old_step_unit > MAX_STEP_UNIT ||
+      old_max_level < MIN_MAX_LEVEL || old_max_level > MAX_MAX_LEVEL) {
+    return Status(Status::BROKEN_DATA_ERROR, "invalid metadata");
+  }
   std::unique_ptr<File> new_file;
   if (act_old_file_size <= UINT32MAX) {
     new_file = std::make_unique<MemoryMapParallelFile>();
-- 
2.43.0

