From 46208207ad56f1af5e62711140f4da3a1a1a2aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:16 +0000
Subject: [PATCH 01/67] fix: HashDBM: removing an already removed record in the
 appending mode must do nothing

---
 tkrzw_dbm_hash.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d1ce92d..e477ca8 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1471,7 +1471,8 @@ Status HashDBMImpl::ProcessImpl(
       if (new_value.data() == nullptr) {
         return Status(Status::BROKEN_DATA_ERROR, "record processing failed");
       }
-      if (new_value.data() != DBM::RecordProcessor::NOOP.data() && writable) {
+      if (new_value.data() != DBM::RecordProcessor::NOOP.data() &&
+          (old_is_set || new_value.data() != DBM::RecordProcessor::REMOVE.data()) && writable) {
         if (update_logger_ != nullptr) {
           if (new_value.data() == DBM::RecordProcessor::REMOVE.data()) {
             status = update_logger_->WriteRemove(key);
-- 
2.43.0


From 12577990230e4421626048c06fd754b025819a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 02/67] fix: TreeDBM: read the last leaf ID from its own place
 in the metadata

---
 tkrzw_dbm_tree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9faa4d3..45a36dd 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2767,7 +2767,7 @@ Status TreeDBM::ParseMetadata(
   *eff_data_size = ReadFixNum(rp + META_OFFSET_EFF_DATA_SIZE, 6);
   *root_id = ReadFixNum(rp + META_OFFSET_ROOT_ID, 6);
   *first_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
-  *last_id = ReadFixNum(rp + META_OFFSET_FIRST_ID, 6);
+  *last_id = ReadFixNum(rp + META_OFFSET_LAST_ID, 6);
   *num_leaf_nodes = ReadFixNum(rp + META_OFFSET_NUM_LEAF_NODES, 6);
   *num_inner_nodes = ReadFixNum(rp + META_OFFSET_NUM_INNER_NODES, 6);
   *max_page_size = ReadFixNum(rp + META_OFFSET_MAX_PAGE_SIZE, 3);
-- 
2.43.0


From 5881ae714476fd6b030915799cee3e3c2e5ff732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 03/67] fix: TreeDBM: moving an iterator backward must not skip
 records of the leaf when its own record is gone

---
 tkrzw_dbm_tree.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 45a36dd..89e2027 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2399,12 +2399,10 @@ Status TreeDBMIteratorImpl::PreviousImpl(std::string_view key) {
     std::shared_lock<SpinSharedMutex> lock(node->mutex);
     auto& records = node->records;
     auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-    if (it != records.end()) {
-      if (it != records.begin()) {
-        --it;
-        SetPositionWithKey(leaf_id_, (*it)->GetKey());
-        hit = true;
-      }
+    if (it != records.begin()) {
+      --it;
+      SetPositionWithKey(leaf_id_, (*it)->GetKey());
+      hit = true;
     }
   }
   Status status(Status::SUCCESS);
-- 
2.43.0


From 69b4dc8b8c78215789f602c067b8323bd703fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 04/67] fix: SkipDBM: a database cleared in a session must
 still be closed properly

---
 tkrzw_dbm_skip.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 05bec97..f412a8b 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -703,8 +703,10 @@ Status SkipDBMImpl::Clear() {
   eff_data_size_ = 0;
   file_size_ = file_->GetSizeSimple();
   timestamp_ = GetWallTime() * 1000000;
+  const uint8_t closure_flags = closure_flags_;
   status |= SaveMetadata(file_.get(), false);
   status |= LoadMetadata();
+  closure_flags_ = closure_flags;
   status |= PrepareStorage();
   cache_ = std::make_unique<SkipRecordCache>(step_unit_, max_cached_records_, num_records_);
   return status;
-- 
2.43.0


From 95dd9cb3b8e43767e355714eee87e99bf22c18a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 05/67] fix: SkipDBM: Set with an old value pointer must
 respect the overwrite flag

---
 tkrzw_dbm_skip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index f412a8b..1d64a6e 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1793,7 +1793,7 @@ Status SkipDBM::Set(std::string_view key, std::string_view value, bool overwrite
   if (overwrite && old_value == nullptr) {
     return impl_->Insert(key, value);
   }
-  return DBM::Set(key, value, false, old_value);
+  return DBM::Set(key, value, overwrite, old_value);
 }
 
 Status SkipDBM::Remove(std::string_view key, std::string* old_value) {
-- 
2.43.0


From 49832773a7b19b22beb9fd5ea179d7f1a70f2724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 06/67] fix: SkipDBM: merged records come after the existing
 ones, and merging needs the exclusive lock

---
 tkrzw_dbm_skip.cc      | 4 ++--
 tkrzw_dbm_skip_impl.cc | 4 ++--
 tkrzw_dbm_skip_impl.h  | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 1d64a6e..1b3ed38 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1033,7 +1033,7 @@ bool SkipDBMImpl::IsUpdated() {
 }
 
 Status SkipDBMImpl::MergeSkipDatabase(const std::string& src_path) {
-  std::shared_lock<SpinSharedMutex> lock(mutex_);
+  std::lock_guard<SpinSharedMutex> lock(mutex_);
   if (!open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
@@ -1276,7 +1276,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   } else {
     if (file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
       record_sorter_->AddSkipRecord(new SkipRecord(
-          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE);
+          file_.get(), offset_width_, step_unit_, max_level_), METADATA_SIZE, true);
     }
     if (sorted_file_ != nullptr &&
         sorted_file_->GetSizeSimple() > static_cast<int64_t>(METADATA_SIZE)) {
diff --git a/tkrzw_dbm_skip_impl.cc b/tkrzw_dbm_skip_impl.cc
index de149e1..fe38a5e 100644
--- a/tkrzw_dbm_skip_impl.cc
+++ b/tkrzw_dbm_skip_impl.cc
@@ -561,8 +561,8 @@ Status RecordSorter::Add(std::string_view key, std::string_view value) {
   return status;
 }
 
-void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base) {
-  skip_records_.emplace_back(rec, record_base);
+void RecordSorter::AddSkipRecord(SkipRecord* rec, int64_t record_base, bool first) {
+  skip_records_.emplace(first ? skip_records_.begin() : skip_records_.end(), rec, record_base);
 }
 
 void RecordSorter::TakeFileOwnership(std::unique_ptr<File>&& file) {
diff --git a/tkrzw_dbm_skip_impl.h b/tkrzw_dbm_skip_impl.h
index 1bb990c..2584703 100644
--- a/tkrzw_dbm_skip_impl.h
+++ b/tkrzw_dbm_skip_impl.h
@@ -300,8 +300,9 @@ class RecordSorter final {
    * Adds a file of SkipRecord.
    * @param rec The pointer to a skip record, whose ownership is taken.
    * @param record_base The record base offset.
+   * @param first True to put the file before the files which have been added already.
    */
-  void AddSkipRecord(SkipRecord* rec, int64_t record_base);
+  void AddSkipRecord(SkipRecord* rec, int64_t record_base, bool first = false);
 
   /**
    * Takes ownership of a file object.
-- 
2.43.0


From 9b60966b2e205cc4c493c68f7c8b566da232273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 07/67] fix: SkipDBM: ValidateRecords must not use the key
 after the record buffer is released

---
 tkrzw_dbm_skip.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 1b3ed38..a8e6662 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1099,14 +1099,14 @@ Status SkipDBMImpl::ValidateRecords() {
     }
     offset += rec.GetWholeSize();
     index++;
-    if (offset == end_offset || last_key != key) {
-      std::string tmp_key(key);
-      status = rec.Search(METADATA_SIZE, cache_.get(), tmp_key, false);
+    const bool to_search = offset == end_offset || last_key != key;
+    last_key = key;
+    if (to_search) {
+      status = rec.Search(METADATA_SIZE, cache_.get(), last_key, false);
       if (status != Status::SUCCESS) {
         return status;
       }
     }
-    last_key = key;
   }
   return Status(Status::SUCCESS);
 }
-- 
2.43.0


From b7dac3cb2e2d679470bd28074bc0b0e76f8f75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 08/67] fix: SkipDBM: records inserted in order must not move
 the last position before synchronization, nor removals stay as records after
 it

---
 tkrzw_dbm_skip.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index a8e6662..b3aaf3a 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -344,6 +344,7 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
       return status;
     }
   }
+  old_num_records_ = num_records_;
   cache_ = std::make_unique<SkipRecordCache>(step_unit_, max_cached_records_, num_records_);
   open_ = true;
   writable_ = writable;
@@ -1257,7 +1258,7 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
   Status status(Status::SUCCESS);
   if (reducer == nullptr && sorted_file_ != nullptr &&
       file_->GetSizeSimple() == static_cast<int64_t>(METADATA_SIZE) &&
-      !record_sorter_->IsUpdated()) {
+      !record_sorter_->IsUpdated() && !removed_) {
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
@@ -1505,9 +1506,9 @@ Status SkipDBMIteratorImpl::Last() {
   if (!dbm_->open_) {
     return Status(Status::PRECONDITION_ERROR, "not opened database");
   }
-  if (dbm_->num_records_ > 0) {
+  if (dbm_->old_num_records_ > 0) {
     SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
-    Status status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->num_records_ - 1);
+    Status status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->old_num_records_ - 1);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1550,11 +1551,11 @@ Status SkipDBMIteratorImpl::JumpLower(std::string_view key, bool inclusive) {
   SkipRecord rec(dbm_->file_.get(), dbm_->offset_width_, dbm_->step_unit_, dbm_->max_level_);
   Status status = rec.Search(METADATA_SIZE, dbm_->cache_.get(), key, true);
   if (status == Status::NOT_FOUND_ERROR) {
-    if (dbm_->num_records_ < 1) {
+    if (dbm_->old_num_records_ < 1) {
       ClearPosition();
       return Status(Status::SUCCESS);
     }
-    status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->num_records_ - 1);
+    status = rec.SearchByIndex(METADATA_SIZE, dbm_->cache_.get(), dbm_->old_num_records_ - 1);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1611,7 +1612,7 @@ Status SkipDBMIteratorImpl::JumpUpper(std::string_view key, bool inclusive) {
     if (ok) {
       return Status(Status::SUCCESS);
     }
-    if (record_index_ == dbm_->num_records_ - 1) {
+    if (record_index_ == dbm_->old_num_records_ - 1) {
       ClearPosition();
       return Status(Status::SUCCESS);
     }
-- 
2.43.0


From b2040ea32c85e7698a2b72e7794f95d4fee47b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 09/67] fix: BabyDBM: ProcessFirst without writing must not
 write and Previous must not skip records when its own record is gone

---
 tkrzw_dbm_baby.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 7dcff20..bd9d4a3 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -497,7 +497,7 @@ Status BabyDBMImpl::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
       std::shared_lock<SpinSharedMutex> page_lock(leaf_node->mutex);
       if (!leaf_node->records.empty()) {
         const std::string key(leaf_node->records.front()->GetKey());
-        ProcessImpl(leaf_node, key, proc, true);
+        ProcessImpl(leaf_node, key, proc, false);
         return Status(Status::SUCCESS);
       }
     }
@@ -1344,12 +1344,10 @@ Status BabyDBMIteratorImpl::PreviousImpl(std::string_view key) {
     std::shared_lock<SpinSharedMutex> lock(leaf_node_->mutex);
     auto& records = leaf_node_->records;
     auto it = std::lower_bound(records.begin(), records.end(), search_rec, dbm_->record_comp_);
-    if (it != records.end()) {
-      if (it != records.begin()) {
-        --it;
-        SetPositionWithKey(leaf_node_, (*it)->GetKey());
-        hit = true;
-      }
+    if (it != records.begin()) {
+      --it;
+      SetPositionWithKey(leaf_node_, (*it)->GetKey());
+      hit = true;
     }
   }
   if (!hit) {
-- 
2.43.0


From 3a9fec0047b88890c91e2110b59c2488c813d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 10/67] fix: TreeDBM and BabyDBM: iterators must release the
 buffer of the previous long key

---
 tkrzw_dbm_baby.cc | 3 +++
 tkrzw_dbm_tree.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index bd9d4a3..352ed6b 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -1303,6 +1303,9 @@ bool BabyDBMIteratorImpl::SetPositionLast(BabyLeafNode* leaf_node) {
 }
 
 void BabyDBMIteratorImpl::SetPositionWithKey(BabyLeafNode* leaf_node, std::string_view key) {
+  if (key_ptr_ != stack_) {
+    delete[] key_ptr_;
+  }
   key_ptr_ = key.size() > sizeof(stack_) ? new char[key.size()] : stack_;
   std::memcpy(key_ptr_, key.data(), key.size());
   key_size_ = key.size();
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 89e2027..17e00ac 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2326,6 +2326,9 @@ Status TreeDBMIteratorImpl::SetPositionLast(int64_t leaf_id) {
 }
 
 void TreeDBMIteratorImpl::SetPositionWithKey(int64_t leaf_id, std::string_view key) {
+  if (key_ptr_ != stack_) {
+    delete[] key_ptr_;
+  }
   key_ptr_ = key.size() > sizeof(stack_) ? new char[key.size()] : stack_;
   std::memcpy(key_ptr_, key.data(), key.size());
   key_size_ = key.size();
-- 
2.43.0


From bd27bcfce479742a581a504b1ae9100d7b0a339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 11/67] fix: CacheDBM: rebuilding with a smaller capacity must
 drop the least recently used records

---
 tkrzw_dbm_cache.cc | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index 80caf5c..c4ce85c 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -513,26 +513,21 @@ void CacheSlot::Rebuild(int64_t cap_rec_num, int64_t cap_mem_size) {
   last_ = nullptr;
   while (ptr != nullptr) {
     char* next = CacheRecord::GetNext(ptr);
-    if (num_records_ < cap_rec_num_ && GetMemoryUsageImpl() < cap_mem_size_) {
-      CacheRecord rec;
-      rec.Deserialize(ptr);
-      const std::string_view key(rec.key_ptr, rec.key_size);
-      const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      const int32_t bucket_index = hash % num_buckets_;
-      CacheRecord::SetChild(ptr, buckets_[bucket_index]);
-      buckets_[bucket_index] = ptr;
-      num_records_++;
-      eff_data_size_ += rec.key_size + rec.value_size;
-      last_ = ptr;
-    } else {
-      xfree(ptr);
-    }
+    CacheRecord rec;
+    rec.Deserialize(ptr);
+    const std::string_view key(rec.key_ptr, rec.key_size);
+    const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
+    const int32_t bucket_index = hash % num_buckets_;
+    CacheRecord::SetChild(ptr, buckets_[bucket_index]);
+    buckets_[bucket_index] = ptr;
+    num_records_++;
+    eff_data_size_ += rec.key_size + rec.value_size;
+    last_ = ptr;
     ptr = next;
   }
-  if (last_ == nullptr) {
-    first_ = nullptr;
-  } else {
-    CacheRecord::SetNext(last_, nullptr);
+  while (first_ != nullptr &&
+         (num_records_ > cap_rec_num_ || GetMemoryUsageImpl() > cap_mem_size_)) {
+    RemoveLRU();
   }
 }
 
-- 
2.43.0


From bc1fba9105b3c39e4026a643c736d68fab8416c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 12/67] fix: on-memory databases: a snapshot that could not be
 written completely must not replace the previous one

---
 tkrzw_dbm_baby.cc  | 15 ++++++++++-----
 tkrzw_dbm_cache.cc | 19 ++++++++++++-------
 tkrzw_dbm_std.cc   | 17 +++++++++++------
 tkrzw_dbm_tiny.cc  | 15 ++++++++++-----
 4 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/tkrzw_dbm_baby.cc b/tkrzw_dbm_baby.cc
index 352ed6b..fc7062a 100644
--- a/tkrzw_dbm_baby.cc
+++ b/tkrzw_dbm_baby.cc
@@ -160,7 +160,7 @@ class BabyDBMImpl final {
   void JoinPrevLinkInInnerNode(BabyInnerNode* node, void* child);
   void JoinNextLinkInInnerNode(BabyInnerNode* node, void* child, void* next);
   Status ImportRecords();
-  Status ExportRecords();
+  Status ExportRecords(bool hard);
   void ProcessImpl(
       BabyLeafNode* node, std::string_view key, DBM::RecordProcessor* proc, bool writable);
   void AppendImpl(
@@ -401,7 +401,7 @@ Status BabyDBMImpl::Close() {
   }
   Status status(Status::SUCCESS);
   if (writable_) {
-    status |= ExportRecords();
+    status |= ExportRecords(false);
   }
   status |= file_->Close();
   FreeNodes();
@@ -587,7 +587,7 @@ Status BabyDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
     status |= update_logger_->Synchronize(hard);
   }
   if (open_ && writable_) {
-    status |= ExportRecords();
+    status |= ExportRecords(hard);
     status |= file_->Synchronize(hard);
     if (proc != nullptr) {
       proc->Process(path_);
@@ -1031,7 +1031,7 @@ Status BabyDBMImpl::ImportRecords() {
   return Status(Status::SUCCESS);
 }
 
-Status BabyDBMImpl::ExportRecords() {
+Status BabyDBMImpl::ExportRecords(bool hard) {
   Status status = file_->Close();
   if (status != Status::SUCCESS) {
     return status;
@@ -1062,8 +1062,13 @@ Status BabyDBMImpl::ExportRecords() {
     }
     leaf_node = leaf_node->next;
   }
+  if (hard && status == Status::SUCCESS) {
+    status |= file_->Synchronize(true);
+  }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status |= RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index c4ce85c..f384140 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -122,7 +122,7 @@ class CacheDBMImpl final {
   void InitAllSlots();
   void CleanUpAllSlots();
   Status ImportRecords();
-  Status ExportRecords();
+  Status ExportRecords(bool hard);
   Status ReadNextBucketRecords(CacheDBMIteratorImpl* iter);
 
   IteratorList iterators_;
@@ -650,7 +650,7 @@ Status CacheDBMImpl::Close() {
   }
   Status status(Status::SUCCESS);
   if (writable_) {
-    status |= ExportRecords();
+    status |= ExportRecords(false);
   }
   status |= file_->Close();
   CleanUpAllSlots();
@@ -795,7 +795,7 @@ Status CacheDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
     status |= update_logger_->Synchronize(hard);
   }
   if (open_ && writable_) {
-    status |= ExportRecords();
+    status |= ExportRecords(hard);
     status |= file_->Synchronize(hard);
     if (proc != nullptr) {
       proc->Process(path_);
@@ -949,7 +949,7 @@ Status CacheDBMImpl::ImportRecords() {
   return Status(Status::SUCCESS);
 }
 
-Status CacheDBMImpl::ExportRecords() {
+Status CacheDBMImpl::ExportRecords(bool hard) {
   Status status = file_->Close();
   if (status != Status::SUCCESS) {
     return status;
@@ -980,13 +980,18 @@ Status CacheDBMImpl::ExportRecords() {
   meta["cap_mem_size"] = ToString(cap_mem_size_);
   status |= flat_rec.Write(SerializeStrMap(meta), FlatRecord::RECORD_METADATA);
   for (auto& slot : slots_) {
-    status = slot.ExportRecords(&flat_rec);
+    status |= slot.ExportRecords(&flat_rec);
     if (status != Status::SUCCESS) {
-      return status;
+      break;
     }
   }
+  if (hard && status == Status::SUCCESS) {
+    status |= file_->Synchronize(true);
+  }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status |= RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_std.cc b/tkrzw_dbm_std.cc
index 3a2ecae..1b62bff 100644
--- a/tkrzw_dbm_std.cc
+++ b/tkrzw_dbm_std.cc
@@ -63,7 +63,7 @@ class StdDBMImpl {
  private:
   void CancelIterators();
   Status ImportRecords();
-  Status ExportRecords();
+  Status ExportRecords(bool hard);
 
   STRMAP map_;
   IteratorList iterators_;
@@ -155,7 +155,7 @@ Status StdDBMImpl<STRMAP>::Close() {
   }
   Status status(Status::SUCCESS);
   if (writable_) {
-    status |= ExportRecords();
+    status |= ExportRecords(false);
   }
   status |= file_->Close();
   CancelIterators();
@@ -441,13 +441,13 @@ Status StdDBMImpl<STRMAP>::Synchronize(bool hard, DBM::FileProcessor* proc) {
     status |= update_logger_->Synchronize(hard);
   }
   if (open_ && writable_) {
-    status |= ExportRecords();
+    status |= ExportRecords(hard);
     status |= file_->Synchronize(hard);
     if (proc != nullptr) {
       proc->Process(path_);
     }
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 template <class STRMAP>
@@ -571,7 +571,7 @@ Status StdDBMImpl<STRMAP>::ImportRecords() {
 }
 
 template <class STRMAP>
-Status StdDBMImpl<STRMAP>::ExportRecords() {
+Status StdDBMImpl<STRMAP>::ExportRecords(bool hard) {
   Status status = file_->Close();
   if (status != Status::SUCCESS) {
     return status;
@@ -602,8 +602,13 @@ Status StdDBMImpl<STRMAP>::ExportRecords() {
     }
     ++it;
   }
+  if (hard && status == Status::SUCCESS) {
+    status |= file_->Synchronize(true);
+  }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status |= RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index c05e1ca..342e576 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -79,7 +79,7 @@ class TinyDBMImpl final {
   void InitializeBuckets();
   void ReleaseAllRecords();
   Status ImportRecords();
-  Status ExportRecords();
+  Status ExportRecords(bool hard);
   void ProcessImpl(
       std::string_view key, int64_t bucket_index, DBM::RecordProcessor* proc, bool writable);
   void AppendImpl(
@@ -260,7 +260,7 @@ Status TinyDBMImpl::Close() {
   }
   Status status(Status::SUCCESS);
   if (writable_) {
-    status |= ExportRecords();
+    status |= ExportRecords(false);
   }
   status |= file_->Close();
   ReleaseAllRecords();
@@ -459,7 +459,7 @@ Status TinyDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
     status |= update_logger_->Synchronize(hard);
   }
   if (open_ && writable_) {
-    status |= ExportRecords();
+    status |= ExportRecords(hard);
     status |= file_->Synchronize(hard);
     if (proc != nullptr) {
       proc->Process(path_);
@@ -586,7 +586,7 @@ Status TinyDBMImpl::ImportRecords() {
   return Status(Status::SUCCESS);
 }
 
-Status TinyDBMImpl::ExportRecords() {
+Status TinyDBMImpl::ExportRecords(bool hard) {
   Status status = file_->Close();
   if (status != Status::SUCCESS) {
     return status;
@@ -618,8 +618,13 @@ Status TinyDBMImpl::ExportRecords() {
       ptr = rec.child;
     }
   }
+  if (hard && status == Status::SUCCESS) {
+    status |= file_->Synchronize(true);
+  }
   status |= file_->Close();
-  status |= RenameFile(export_path, path_);
+  if (status == Status::SUCCESS) {
+    status |= RenameFile(export_path, path_);
+  }
   RemoveFile(export_path);
   status |= file_->Open(path_, true, open_options_ & ~File::OPEN_TRUNCATE);
   return status;
-- 
2.43.0


From 1813424b8cc2e4256da3670cbcda25f457727a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 13/67] fix: FlatRecordReader: the last record must be read
 even if it is empty

---
 tkrzw_file_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index 464b7b1..cb9aad1 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1350,7 +1350,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
   if (status != Status::SUCCESS) {
     return status;
   }
-  if (file_size <= offset_ + min_record_size) {
+  if (file_size < offset_ + min_record_size) {
     return Status(Status::NOT_FOUND_ERROR);
   }
   data_size_ = std::min(static_cast<int64_t>(buffer_size_), file_size - offset_);
-- 
2.43.0


From e735dc775c05d14fa64841fd362c95d6317425ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 14/67] fix: TreeDBM: a page must not be loaded while it is
 updated and evicted by another thread

---
 tkrzw_dbm_tree.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 17e00ac..b84ea60 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -1286,12 +1286,12 @@ Status TreeDBMImpl::LoadLeafNode(
     int64_t id, bool promotion, std::shared_ptr<TreeLeafNode>* node) {
   int32_t slot_index = id % NUM_PAGE_SLOTS;
   LeafSlot* slot = leaf_slots_ + slot_index;
-  {
-    std::lock_guard<SpinMutex> lock(slot->mutex);
-    *node = slot->cache->Get(id, promotion);
-    if (*node != nullptr) {
-      return Status(Status::SUCCESS);
-    }
+  // The lock is held until the loaded node is added, lest the page should be updated and evicted
+  // by others meanwhile and a stale copy of it be added.
+  std::lock_guard<SpinMutex> lock(slot->mutex);
+  *node = slot->cache->Get(id, promotion);
+  if (*node != nullptr) {
+    return Status(Status::SUCCESS);
   }
   char node_key_buf[PAGE_ID_WIDTH];
   WriteFixNum(node_key_buf, id, PAGE_ID_WIDTH);
@@ -1331,8 +1331,8 @@ Status TreeDBMImpl::LoadLeafNode(
     FreeTreeRecords(&records);
     return load_status;
   }
-  *node = (new TreeLeafNode(this, id, prev_id, next_id,
-                            std::move(records), page_size))->AddToCache();
+  *node = slot->cache->Add(
+      id, new TreeLeafNode(this, id, prev_id, next_id, std::move(records), page_size));
   return Status(Status::SUCCESS);
 }
 
@@ -1441,12 +1441,12 @@ Status TreeDBMImpl::LoadInnerNode(
     int64_t id, bool promotion, std::shared_ptr<TreeInnerNode>* node) {
   int32_t slot_index = id % NUM_PAGE_SLOTS;
   InnerSlot* slot = inner_slots_ + slot_index;
-  {
-    std::lock_guard<SpinMutex> lock(slot->mutex);
-    *node = slot->cache->Get(id);
-    if (*node != nullptr) {
-      return Status(Status::SUCCESS);
-    }
+  // The lock is held until the loaded node is added, lest the page should be updated and evicted
+  // by others meanwhile and a stale copy of it be added.
+  std::lock_guard<SpinMutex> lock(slot->mutex);
+  *node = slot->cache->Get(id);
+  if (*node != nullptr) {
+    return Status(Status::SUCCESS);
   }
   char node_key_buf[PAGE_ID_WIDTH];
   WriteFixNum(node_key_buf, id, PAGE_ID_WIDTH);
@@ -1479,7 +1479,7 @@ Status TreeDBMImpl::LoadInnerNode(
     FreeTreeLinks(&links);
     return load_status;
   }
-  *node = (new TreeInnerNode(this, id, heir_id, std::move(links)))->AddToCache();
+  *node = slot->cache->Add(id, new TreeInnerNode(this, id, heir_id, std::move(links)));
   return Status(Status::SUCCESS);
 }
 
-- 
2.43.0


From 9f98475e3cbc9019ed5e5e2920a8ef1aa5e46b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:34 +0000
Subject: [PATCH 15/67] fix: CacheDBM: ProcessFirst and ProcessEach must not
 release the lock between finding a record and processing it

---
 tkrzw_dbm_cache.cc | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/tkrzw_dbm_cache.cc b/tkrzw_dbm_cache.cc
index f384140..3b3eefc 100644
--- a/tkrzw_dbm_cache.cc
+++ b/tkrzw_dbm_cache.cc
@@ -413,21 +413,14 @@ void CacheSlot::ProcessImpl(
 
 bool CacheSlot::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
-    bool hit = false;
-    std::string key;
-    {
-      std::lock_guard<SpinMutex> lock(mutex_);
-      char* ptr = first_;
-      if (ptr != nullptr) {
-        CacheRecord rec;
-        rec.Deserialize(ptr);
-        key = std::string(rec.key_ptr, rec.key_size);
-        hit = true;
-      }
-    }
-    if (hit) {
+    std::lock_guard<SpinMutex> lock(mutex_);
+    char* ptr = first_;
+    if (ptr != nullptr) {
+      CacheRecord rec;
+      rec.Deserialize(ptr);
+      const std::string key(rec.key_ptr, rec.key_size);
       const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      Process(key, hash, proc, true);
+      ProcessImpl(key, hash, proc, true);
       return true;
     }
   } else {
@@ -448,20 +441,18 @@ bool CacheSlot::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
 void CacheSlot::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
     std::vector<std::string> keys;
+    std::lock_guard<SpinMutex> lock(mutex_);
     keys.reserve(num_records_);
-    {
-      std::lock_guard<SpinMutex> lock(mutex_);
-      char* ptr = first_;
-      while (ptr != nullptr) {
-        CacheRecord rec;
-        rec.Deserialize(ptr);
-        keys.emplace_back(std::string(rec.key_ptr, rec.key_size));
-        ptr = rec.next;
-      }
+    char* ptr = first_;
+    while (ptr != nullptr) {
+      CacheRecord rec;
+      rec.Deserialize(ptr);
+      keys.emplace_back(std::string(rec.key_ptr, rec.key_size));
+      ptr = rec.next;
     }
     for (const auto& key : keys) {
       const uint64_t hash = PrimaryHash(key, UINT64MAX) >> 8;
-      Process(key, hash, proc, true);
+      ProcessImpl(key, hash, proc, true);
     }
   } else {
     std::lock_guard<SpinMutex> lock(mutex_);
-- 
2.43.0


From 0f176815de2fd4ab45dcb82800c3749dbe9801f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 16/67] fix: TreeDBM: Rebuild must change the tuning while no
 other operation is running

---
 tkrzw_dbm_tree.cc | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index b84ea60..8c30e1d 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -892,17 +892,20 @@ Status TreeDBMImpl::Rebuild(
   }
   std::lock_guard<SpinMutex> rebulid_lock(rebuild_mutex_);
   const HashDBM::TuningParameters hash_params = tuning_params;
-  if (tuning_params.max_page_size > 0) {
-    max_page_size_ = tuning_params.max_page_size;
-  }
-  if (tuning_params.max_branches > 1) {
-    max_branches_ = tuning_params.max_branches;
-  }
-  if (tuning_params.max_cached_pages > 0) {
-    max_cached_pages_ = tuning_params.max_cached_pages;
-  }
-  if (tuning_params.page_update_mode != TreeDBM::PAGE_UPDATE_DEFAULT) {
-    page_update_mode_ = tuning_params.page_update_mode;
+  {
+    std::lock_guard<SpinSharedMutex> lock(mutex_);
+    if (tuning_params.max_page_size > 0) {
+      max_page_size_ = tuning_params.max_page_size;
+    }
+    if (tuning_params.max_branches > 1) {
+      max_branches_ = tuning_params.max_branches;
+    }
+    if (tuning_params.max_cached_pages > 0) {
+      max_cached_pages_ = tuning_params.max_cached_pages;
+    }
+    if (tuning_params.page_update_mode != TreeDBM::PAGE_UPDATE_DEFAULT) {
+      page_update_mode_ = tuning_params.page_update_mode;
+    }
   }
   status = hash_dbm_->RebuildAdvanced(hash_params, skip_broken_records, sync_hard);
   return status;
-- 
2.43.0


From 4672f15d97147aa6ab03678d7f3285edfe43f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 17/67] fix: HashDBM: Rebuild must replace the file while no
 other operation is running

---
 tkrzw_dbm_hash.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index e477ca8..72bf5c3 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -515,8 +515,8 @@ Status HashDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
       return Status(Status::PRECONDITION_ERROR, "not healthy database");
     }
   }
+  ScopedHashLock record_lock(record_mutex_, writable);
   if (!writable && (static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE)) {
-    ScopedHashLock record_lock(record_mutex_, writable);
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     const int64_t end_offset = file_->GetSizeSimple();
     int64_t offset = record_base_;
@@ -550,7 +550,6 @@ Status HashDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     return Status(Status::SUCCESS);
   }
-  ScopedHashLock record_lock(record_mutex_, writable);
   proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
   for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
     int64_t current_offset = 0;
@@ -774,6 +773,7 @@ std::vector<std::pair<std::string, std::string>> HashDBMImpl::Inspect() {
   };
   Add("class", "HashDBM");
   if (open_) {
+    ScopedHashLock record_lock(record_mutex_, false);
     Add("healthy", ToString(healthy_));
     Add("auto_restored", ToString(auto_restored_));
     Add("path", path_);
@@ -959,6 +959,7 @@ HashDBM::UpdateMode HashDBMImpl::GetUpdateMode() {
   if (!open_) {
     return HashDBM::UPDATE_DEFAULT;
   }
+  ScopedHashLock record_lock(record_mutex_, false);
   HashDBM::UpdateMode mode = HashDBM::UPDATE_DEFAULT;
   if (static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE)  {
     mode = HashDBM::UPDATE_IN_PLACE;
@@ -1756,6 +1757,14 @@ Status HashDBMImpl::RebuildImpl(
     begin_offset = end_offset;
   }
   {
+    // The file and the attributes are replaced while no other operation is running.
+    while (!mutex_.try_upgrade()) {
+      std::this_thread::yield();
+    }
+    struct Downgrader final {
+      SpinSharedMutex& mutex;
+      ~Downgrader() { mutex.downgrade(); }
+    } downgrader{mutex_};
     ScopedHashLock record_lock(record_mutex_, true);
     end_offset = file_->GetSizeSimple();
     if (begin_offset < end_offset) {
-- 
2.43.0


From c3d42f380a71ac8661557fa37c628cbd3da4e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 18/67] fix: HashDBM: records updated in place must be
 countable in the appending mode

---
 tkrzw_dbm_hash.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 72bf5c3..0bbf3bc 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1492,7 +1492,7 @@ Status HashDBMImpl::ProcessImpl(
             rec.SetData(HashRecord::OP_VOID, old_rec_size, "", 0, "", 0, 0);
             new_rec_size = rec.GetWholeSize();
           } else {
-            rec.SetData(old_is_set ? HashRecord::OP_SET : HashRecord::OP_ADD,
+            rec.SetData(HashRecord::OP_ADD,
                         old_rec_size, key.data(), key.size(),
                         new_value.data(), new_value.size(), child_offset);
             new_rec_size = rec.GetWholeSize();
@@ -1526,7 +1526,7 @@ Status HashDBMImpl::ProcessImpl(
             rec.SetData(HashRecord::OP_REMOVE, 0, key.data(), key.size(), "", 0, new_child_offset);
             new_rec_size = rec.GetWholeSize();
           } else {
-            rec.SetData(old_is_set ? HashRecord::OP_SET : HashRecord::OP_ADD,
+            rec.SetData(old_is_set && !in_place ? HashRecord::OP_SET : HashRecord::OP_ADD,
                         0, key.data(), key.size(),
                         new_value.data(), new_value.size(), new_child_offset);
             new_rec_size = rec.GetWholeSize();
@@ -1540,7 +1540,7 @@ Status HashDBMImpl::ProcessImpl(
                 rec.SetData(HashRecord::OP_REMOVE, new_rec_size, key.data(), key.size(),
                             "", 0, new_child_offset);
               } else {
-                rec.SetData(HashRecord::OP_SET, new_rec_size, key.data(), key.size(),
+                rec.SetData(HashRecord::OP_ADD, new_rec_size, key.data(), key.size(),
                             new_value.data(), new_value.size(), new_child_offset);
               }
               new_offset = fb.offset;
-- 
2.43.0


From 6fed1e04c2d59ab60ecf8399b253b8d167545eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 19/67] fix: TinyDBM: ProcessFirst and ProcessEach must lock
 the records they read

---
 tkrzw_dbm_tiny.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_tiny.cc b/tkrzw_dbm_tiny.cc
index 342e576..ddc80e3 100644
--- a/tkrzw_dbm_tiny.cc
+++ b/tkrzw_dbm_tiny.cc
@@ -328,6 +328,7 @@ Status TinyDBMImpl::ProcessFirst(DBM::RecordProcessor* proc, bool writable) {
     std::shared_lock<SpinSharedMutex> lock(mutex_);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
+      ScopedHashLock record_lock(record_mutex_, bucket_index, false);
       char* ptr = buckets_[bucket_index];
       if (ptr != nullptr) {
         rec.Deserialize(ptr);
@@ -361,6 +362,7 @@ Status TinyDBMImpl::ProcessEach(DBM::RecordProcessor* proc, bool writable) {
     proc->ProcessEmpty(DBM::RecordProcessor::NOOP);
     TinyRecord rec;
     for (int64_t bucket_index = 0; bucket_index < num_buckets_; bucket_index++) {
+      ScopedHashLock record_lock(record_mutex_, bucket_index, false);
       char* ptr = buckets_[bucket_index];
       while (ptr != nullptr) {
         rec.Deserialize(ptr);
-- 
2.43.0


From 9c779ed23799509348c2614a66c96eeb81f2d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 20/67] fix: TaskQueue: stopping must not miss a worker that is
 about to wait

---
 tkrzw_thread_util.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index e769097..2f51578 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1520,7 +1520,10 @@ inline void TaskQueue::Stop(double timeout) {
     cond_.notify_all();
     SleepThread(0.01);
   }
-  running_.store(false);
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    running_.store(false);
+  }
   cond_.notify_all();
   for (auto& thread : threads_) {
     thread.join();
-- 
2.43.0


From 38ea7e0741fa6b34941cb32e79fa204e28c6d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 21/67] fix: WaitCounter: the notification must not miss a
 thread that is about to wait

---
 tkrzw_thread_util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 2f51578..725f097 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -1560,6 +1560,7 @@ inline int32_t WaitCounter::Get() const {
 }
 
 inline void WaitCounter::Done(int32_t decrement) {
+  std::lock_guard<std::mutex> lock(mutex_);
   if (count_.fetch_sub(decrement) <= decrement) {
     cond_.notify_all();
   }
-- 
2.43.0


From 647471d631eb0d9d47be3a40def53571f474bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:15 +0000
Subject: [PATCH 22/67] fix: SignalBroker and KeySignalBroker: a signal must
 wake the waiter it is counted for and no other

---
 tkrzw_thread_util.h | 80 ++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/tkrzw_thread_util.h b/tkrzw_thread_util.h
index 725f097..797154a 100644
--- a/tkrzw_thread_util.h
+++ b/tkrzw_thread_util.h
@@ -904,9 +904,11 @@ class SignalBroker final {
   bool Send(bool all = true);
 
  private:
-  /** The number of waiting threads. */
-  int32_t wait_count_;
-  /** The mutex to guard the counter. */
+  /** The ID of the next wait. */
+  int64_t next_id_;
+  /** The IDs of the waits which have not received a signal. */
+  std::set<int64_t> ids_;
+  /** The mutex to guard the IDs. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
@@ -972,9 +974,11 @@ class KeySignalBroker final {
   bool Send(const KEYTYPE& key, bool all = true);
 
  private:
-  /** The set of event keys and the wait count. */
-  std::map<KEYTYPE, int32_t> counts_;
-  /** The mutex to guard the counter. */
+  /** The ID of the next wait. */
+  int64_t next_id_;
+  /** The event keys and the IDs of the waits which have not received a signal. */
+  std::map<KEYTYPE, std::set<int64_t>> ids_;
+  /** The mutex to guard the IDs. */
   std::mutex mutex_;
   /** The conditional variable to notify the change. */
   std::condition_variable cond_;
@@ -1584,22 +1588,22 @@ inline bool WaitCounter::Wait(double timeout) {
   return true;
 }
 
-inline SignalBroker::SignalBroker() : wait_count_(false), mutex_(), cond_(), notify_mutex_() {}
+inline SignalBroker::SignalBroker() : next_id_(0), ids_(), mutex_(), cond_(), notify_mutex_() {}
 
 inline bool SignalBroker::Send(bool all) {
   {
     std::lock_guard<std::mutex> lock(mutex_);
-    if (wait_count_ == 0) {
+    if (ids_.empty()) {
       return false;
     }
-    wait_count_ = 0;
+    if (all) {
+      ids_.clear();
+    } else {
+      ids_.erase(ids_.begin());
+    }
   }
   std::lock_guard lock(notify_mutex_);
-  if (all) {
-    cond_.notify_all();
-  } else {
-    cond_.notify_one();
-  }
+  cond_.notify_all();
   return true;
 }
 
@@ -1618,17 +1622,14 @@ inline bool SignalBroker::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->wait_count_++;
-  while (broker_->wait_count_ != 0) {
+  const int64_t id = broker_->next_id_++;
+  broker_->ids_.emplace(id);
+  while (broker_->ids_.find(id) != broker_->ids_.end()) {
     broker_->notify_mutex_.unlock_shared();
     auto wait_rv = broker_->cond_.wait_until(lock, deadline);
     broker_->notify_mutex_.lock_shared();
     if (wait_rv == std::cv_status::timeout) {
-      if (broker_->wait_count_ == 0) {
-        return true;
-      }
-      broker_->wait_count_--;
-      return false;
+      return broker_->ids_.erase(id) == 0;
     }
   }
   return true;
@@ -1636,22 +1637,25 @@ inline bool SignalBroker::Waiter::Wait(double timeout) {
 
 template<typename KEYTYPE>
 inline KeySignalBroker<KEYTYPE>::KeySignalBroker()
-    : counts_(), mutex_(), cond_(), notify_mutex_() {}
+    : next_id_(0), ids_(), mutex_(), cond_(), notify_mutex_() {}
 
 template<typename KEYTYPE>
 inline bool KeySignalBroker<KEYTYPE>::Send(const KEYTYPE& key, bool all) {
   {
     std::lock_guard<std::mutex> lock(mutex_);
-    if (counts_.erase(key) == 0) {
+    auto it = ids_.find(key);
+    if (it == ids_.end()) {
       return false;
     }
+    if (!all) {
+      it->second.erase(it->second.begin());
+    }
+    if (all || it->second.empty()) {
+      ids_.erase(it);
+    }
   }
   std::lock_guard lock(notify_mutex_);
-  if (all) {
-    cond_.notify_all();
-  } else {
-    cond_.notify_one();
-  }
+  cond_.notify_all();
   return true;
 }
 
@@ -1674,25 +1678,27 @@ inline bool KeySignalBroker<KEYTYPE>::Waiter::Wait(double timeout) {
   const auto deadline = std::chrono::steady_clock::now() +
       std::chrono::microseconds(static_cast<int64_t>(timeout * 1000000));
   std::unique_lock<std::mutex> lock(broker_->mutex_);
-  broker_->counts_[key_]++;
-  while (broker_->counts_.find(key_) != broker_->counts_.end()) {
+  const int64_t id = broker_->next_id_++;
+  broker_->ids_[key_].emplace(id);
+  while (true) {
+    auto it = broker_->ids_.find(key_);
+    if (it == broker_->ids_.end() || it->second.find(id) == it->second.end()) {
+      return true;
+    }
     broker_->notify_mutex_.unlock_shared();
     auto wait_rv = broker_->cond_.wait_until(lock, deadline);
     broker_->notify_mutex_.lock_shared();
     if (wait_rv == std::cv_status::timeout) {
-      auto it = broker_->counts_.find(key_);
-      if (it == broker_->counts_.end()) {
+      it = broker_->ids_.find(key_);
+      if (it == broker_->ids_.end() || it->second.erase(id) == 0) {
         return true;
       }
-      if (it->second > 1) {
-        it->second--;
-      } else {
-        broker_->counts_.erase(it);
+      if (it->second.empty()) {
+        broker_->ids_.erase(it);
       }
       return false;
     }
   }
-  return true;
 }
 
 template<typename KEYTYPE>
-- 
2.43.0


From f13a9b00b236cbb2d8b3f12876b12352357f2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:37 +0000
Subject: [PATCH 23/67] fix: AsyncDBM: SetMulti of string records must respect
 the overwrite flag

---
 tkrzw_dbm_async.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_async.h b/tkrzw_dbm_async.h
index 77479f4..1e37074 100644
--- a/tkrzw_dbm_async.h
+++ b/tkrzw_dbm_async.h
@@ -223,7 +223,7 @@ class AsyncDBM final {
    */
   std::future<Status> SetMulti(
       const std::map<std::string, std::string>& records, bool overwrite = true) {
-    return SetMulti(MakeStrViewMapFromRecords(records));
+    return SetMulti(MakeStrViewMapFromRecords(records), overwrite);
   }
 
   /**
-- 
2.43.0


From b1fd8a7d185547cee70d633ae635e70f60e949e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:13 +0000
Subject: [PATCH 24/67] fix: HashDBM: a file whose initialization was
 interrupted must be initialized again

---
 tkrzw_dbm_hash.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 0bbf3bc..d951f45 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -147,6 +147,7 @@ class HashDBMImpl final {
  private:
   void SetTuning(const HashDBM::TuningParameters& tuning_params);
   Status OpenImpl(bool writable);
+  bool IsInitializationIncomplete();
   Status CloseImpl();
   void CancelIterators();
   Status SaveMetadata(bool finish);
@@ -1171,7 +1172,7 @@ void HashDBMImpl::SetTuning(const HashDBM::TuningParameters& tuning_params) {
 }
 
 Status HashDBMImpl::OpenImpl(bool writable) {
-  if (writable && file_->GetSizeSimple() < 1) {
+  if (writable && (file_->GetSizeSimple() < 1 || IsInitializationIncomplete())) {
     SetRecordBase();
     Status status = InitializeBuckets();
     if (status != Status::SUCCESS) {
@@ -1235,6 +1236,23 @@ Status HashDBMImpl::OpenImpl(bool writable) {
   return Status(Status::SUCCESS);
 }
 
+bool HashDBMImpl::IsInitializationIncomplete() {
+  // The metadata is written at the end of initialization and always has a timestamp.
+  char meta[METADATA_SIZE];
+  std::memset(meta, 0, METADATA_SIZE);
+  const int64_t size = std::min<int64_t>(file_->GetSizeSimple(), METADATA_SIZE);
+  if (file_->Read(0, meta, size) != Status::SUCCESS) {
+    return false;
+  }
+  constexpr int32_t magic_size = sizeof(META_MAGIC_DATA) - 1;
+  int32_t match_size = 0;
+  while (match_size < magic_size && meta[match_size] == META_MAGIC_DATA[match_size]) {
+    match_size++;
+  }
+  const int32_t null_offset = match_size < magic_size ? match_size : META_OFFSET_TIMESTAMP;
+  return std::all_of(meta + null_offset, meta + METADATA_SIZE, [](char c) { return c == 0; });
+}
+
 Status HashDBMImpl::CloseImpl() {
   Status status(Status::SUCCESS);
   if (writable_ && healthy_) {
-- 
2.43.0


From 971893808f0f83f9a97e1dd621e13e9fbaab81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 25/67] fix: HashDBM: restoration must not give up the intact
 records after a broken one near the end of the file or larger than a thousand
 units

---
 tkrzw_dbm_hash_impl.cc | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/tkrzw_dbm_hash_impl.cc b/tkrzw_dbm_hash_impl.cc
index 4fa6555..86a94ff 100644
--- a/tkrzw_dbm_hash_impl.cc
+++ b/tkrzw_dbm_hash_impl.cc
@@ -310,7 +310,7 @@ Status HashRecord::WriteChildOffset(int64_t offset, int64_t child_offset) {
 }
 
 Status HashRecord::FindNextOffset(int64_t offset, int32_t min_read_size, int64_t* next_offset) {
-  constexpr int32_t MAX_SHIFT_TRIES = 1000;
+  constexpr int64_t MAX_SHIFT_SIZE = 1 << 20;
   constexpr int32_t VALIDATION_COUNT = 3;
   constexpr int32_t MAX_REC_SIZE = 1 << 20;
   const int64_t min_record_size =
@@ -318,29 +318,44 @@ Status HashRecord::FindNextOffset(int64_t offset, int32_t min_read_size, int64_t
   const int32_t align = 1 << align_pow_;
   offset += min_record_size;
   offset = AlignNumber(offset, align);
-  int64_t file_size = file_->GetSizeSimple();
+  // The file can have a null region after the last record.
+  const int64_t file_size = file_->GetSizeSimple();
+  int64_t data_end = file_size;
+  while (data_end > offset) {
+    char buf[WRITE_BUFFER_SIZE];
+    const int64_t check_size = std::min<int64_t>(data_end - offset, sizeof(buf));
+    const Status status = file_->Read(data_end - check_size, buf, check_size);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+    int64_t data_size = check_size;
+    while (data_size > 0 && buf[data_size - 1] == 0) {
+      data_size--;
+    }
+    data_end -= check_size - data_size;
+    if (data_size > 0) {
+      break;
+    }
+  }
   HashRecord rec(file_, crc_width_, offset_width_, align_pow_);
-  int32_t num_shift_tries = MAX_SHIFT_TRIES;
-  while (num_shift_tries-- > 0 && offset < file_size) {
+  const int64_t shift_end = std::min(data_end, offset + MAX_SHIFT_SIZE);
+  while (offset < shift_end) {
     if (rec.ReadMetadataKey(offset, min_read_size) == Status::SUCCESS &&
         rec.CheckCRC() == Status::SUCCESS) {
       int32_t count = 0;
       int64_t forward_offset = offset + rec.GetWholeSize();
-      while (forward_offset < file_size && count < VALIDATION_COUNT &&
+      while (forward_offset < data_end && count < VALIDATION_COUNT &&
              rec.ReadMetadataKey(forward_offset, min_read_size) == Status::SUCCESS &&
              rec.CheckCRC() == Status::SUCCESS) {
         const int32_t rec_size = rec.GetWholeSize();
         if (rec_size <= MAX_REC_SIZE && rec_size % align != 0) {
           break;
         }
-        if (forward_offset + rec_size == file_size) {
-          count = VALIDATION_COUNT;
-          break;
-        }
         count++;
         forward_offset += rec_size;
       }
-      if (count >= VALIDATION_COUNT) {
+      if (count >= VALIDATION_COUNT ||
+          (forward_offset >= data_end && forward_offset <= file_size)) {
         *next_offset = offset;
         return Status(Status::SUCCESS);
       }
-- 
2.43.0


From 6863ad87d1cc8a192222f0c31127bf55833173ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 26/67] fix: HashDBM: with cached buckets, the metadata in the
 file must tell that the database is in use

---
 tkrzw_dbm_hash.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index d951f45..fb38e50 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -151,6 +151,7 @@ class HashDBMImpl final {
   Status CloseImpl();
   void CancelIterators();
   Status SaveMetadata(bool finish);
+  Status SaveUnclosedMetadata();
   Status LoadMetadata();
   void SetRecordBase();
   Status CheckFileBeforeOpen(File* file, const std::string& path, bool writable);
@@ -762,7 +763,7 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (proc != nullptr) {
     proc->Process(path_);
   }
-  status |= SaveMetadata(false);
+  status |= SaveUnclosedMetadata();
   return status;
 }
 
@@ -1218,7 +1219,7 @@ Status HashDBMImpl::OpenImpl(bool writable) {
     }
   }
   if (writable && healthy) {
-    status = SaveMetadata(false);
+    status = SaveUnclosedMetadata();
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1320,6 +1321,15 @@ Status HashDBMImpl::SaveMetadata(bool finish) {
   return file_->Write(0, meta, METADATA_SIZE);
 }
 
+Status HashDBMImpl::SaveUnclosedMetadata() {
+  Status status = SaveMetadata(false);
+  if (cache_buckets_) {
+    // The metadata in the file must tell that the buckets in the file can be obsolete.
+    status |= file_->Synchronize(false, 0, METADATA_SIZE);
+  }
+  return status;
+}
+
 Status HashDBMImpl::LoadMetadata() {
   int64_t num_records = 0;
   int64_t eff_data_size = 0;
-- 
2.43.0


From 463f63446269b3030a8e7b56aeaf5a91607227a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 27/67] fix: TreeDBM: a stop during restoration must not leave
 a file which is regarded as healthy without a consistent tree

---
 tkrzw_dbm_tree.cc | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 8c30e1d..605b5fe 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -146,6 +146,7 @@ class TreeDBMImpl final {
 
  private:
   Status SaveMetadata();
+  bool IsHashFileUnchanged();
   Status LoadMetadata();
   void InitializePageCache();
   Status LoadLeafNode(int64_t id, bool promotion, std::shared_ptr<TreeLeafNode>* node);
@@ -429,18 +430,34 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
   if (tuning_params.key_comparator != nullptr) {
     key_comparator_ = tuning_params.key_comparator;
   }
-  Status status = hash_dbm_->OpenAdvanced(norm_path, writable, options, hash_params);
+  const int32_t restore_mode = tuning_params.restore_mode & 0xffff;
+  const bool restorable = writable && restore_mode != HashDBM::RESTORE_READ_ONLY &&
+      restore_mode != HashDBM::RESTORE_NOOP;
+  HashDBM::TuningParameters first_params = hash_params;
+  if (restorable) {
+    // If the underlying hash database were restored in place and the process stopped before the
+    // tree was restored too, the file would be regarded as healthy.
+    first_params.restore_mode = HashDBM::RESTORE_READ_ONLY;
+  }
+  Status status = hash_dbm_->OpenAdvanced(norm_path, writable, options, first_params);
   if (status != Status::SUCCESS) {
     return status;
   }
   auto_restored_ = false;
-  if (writable && hash_dbm_->IsAutoRestored() &&
-      tuning_params.restore_mode != HashDBM::RESTORE_READ_ONLY &&
-      tuning_params.restore_mode != HashDBM::RESTORE_NOOP) {
+  if (restorable && !hash_dbm_->IsHealthy()) {
+    const bool unchanged =
+        !(tuning_params.restore_mode & HashDBM::RESTORE_NO_SHORTCUTS) && IsHashFileUnchanged();
     hash_dbm_->Close();
+    if (unchanged) {
+      status = hash_dbm_->OpenAdvanced(norm_path, true, options, hash_params);
+      if (status != Status::SUCCESS) {
+        return status;
+      }
+    }
+  }
+  if (restorable && !hash_dbm_->IsOpen()) {
     const std::string tmp_path = norm_path + ".tmp.restore";
-    const int64_t end_offset =
-        tuning_params.restore_mode == HashDBM::RESTORE_SYNC ? INT64MAX : INT64MIN;
+    const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
     RemoveFile(tmp_path);
     status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key);
     if (status != Status::SUCCESS) {
@@ -508,6 +525,23 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
   return Status(Status::SUCCESS);
 }
 
+bool TreeDBMImpl::IsHashFileUnchanged() {
+  if (hash_dbm_->GetUpdateMode() != HashDBM::UPDATE_APPENDING) {
+    return false;
+  }
+  int32_t cyclic_magic, pkg_major_version, pkg_minor_version, static_flags;
+  int32_t offset_width, align_pow, closure_flags, db_type;
+  int64_t num_buckets, num_records, eff_data_size, file_size, mod_time;
+  std::string opaque;
+  File* file = hash_dbm_->GetInternalFile();
+  return HashDBM::ReadMetadata(
+      file, &cyclic_magic, &pkg_major_version, &pkg_minor_version, &static_flags,
+      &offset_width, &align_pow, &closure_flags, &num_buckets, &num_records,
+      &eff_data_size, &file_size, &mod_time, &db_type, &opaque) == Status::SUCCESS &&
+      cyclic_magic >= 0 && file_size == file->GetSizeSimple() &&
+      hash_dbm_->ValidateHashBuckets() == Status::SUCCESS;
+}
+
 Status TreeDBMImpl::Close() {
   std::lock_guard<SpinSharedMutex> lock(mutex_);
   if (!open_) {
@@ -2791,6 +2825,7 @@ Status TreeDBM::RestoreDatabase(
     end_offset = end_offset == INT64MIN ? -1 : 0;
   } else {
     tmp_file_path = new_file_path + ".tmp.restore";
+    RemoveFile(tmp_file_path);
     const Status status =
         HashDBM::RestoreDatabase(old_file_path, tmp_file_path, end_offset, cipher_key);
     if (status != Status::SUCCESS) {
-- 
2.43.0


From fb376c1c20274b2dd4ac8673b6e84cd9763fa4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:42 +0000
Subject: [PATCH 28/67] fix: HashDBM, TreeDBM: a stop during Clear must leave
 the old content or an empty usable database

---
 tkrzw_dbm_hash.cc | 10 ++++++++--
 tkrzw_dbm_tree.cc | 16 +++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index fb38e50..164078c 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -676,9 +676,15 @@ Status HashDBMImpl::Clear() {
   const std::string cipher_key = cipher_key_;
   const uint32_t db_type = db_type_;
   const std::string opaque = opaque_;
+  // The old content must not be marked as closed properly because upper layers may not be
+  // synchronized with it.
+  Status status = file_->Truncate(0);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   CancelIterators();
-  Status status = CloseImpl();
-  status |= file_->Truncate(0);
+  healthy_ = false;
+  status |= CloseImpl();
   static_flags_ = static_flags;
   offset_width_ = offset_width;
   align_pow_ = align_pow;
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 605b5fe..4c4e632 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -475,8 +475,15 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
     }
     auto_restored_ = true;
   }
-  if (writable && hash_dbm_->CountSimple() == 0 &&
-      hash_dbm_->GetOpaqueMetadata() == std::string(HashDBM::OPAQUE_METADATA_SIZE, 0)) {
+  if (writable && hash_dbm_->CountSimple() == 0) {
+    if (hash_dbm_->GetOpaqueMetadata() != std::string(HashDBM::OPAQUE_METADATA_SIZE, 0)) {
+      // The process stopped while it was clearing the database.
+      status = LoadMetadata();
+      if (status != Status::SUCCESS) {
+        hash_dbm_->Close();
+        return status;
+      }
+    }
     num_records_.store(0);
     eff_data_size_.store(0);
     root_id_ = 0;
@@ -853,13 +860,16 @@ Status TreeDBMImpl::Clear() {
       return status;
     }
   }
+  Status status = hash_dbm_->Clear();
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   for (auto* iterator : iterators_) {
     iterator->ClearPosition();
   }
   reorg_ids_.Clear();
   DiscardLeafCache();
   DiscardInnerCache();
-  Status status = hash_dbm_->Clear();
   num_records_.store(0);
   eff_data_size_.store(0);
   root_id_ = 0;
-- 
2.43.0


From 5d90530a72c5d7318873d9893eddbd886fdabf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:06 +0000
Subject: [PATCH 29/67] fix: HashDBM: Rebuild must write the database type and
 the opaque metadata into the new file before it replaces the old one

---
 tkrzw_dbm_hash.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 164078c..1e3c100 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1816,7 +1816,9 @@ Status HashDBMImpl::RebuildImpl(
         return status;
       }
     }
-    status = tmp_dbm.Close();
+    status = tmp_dbm.SetDatabaseType(db_type_);
+    status |= tmp_dbm.SetOpaqueMetadata(opaque_);
+    status |= tmp_dbm.Close();
     if (status != Status::SUCCESS) {
       CleanUp();
       return status;
-- 
2.43.0


From 7a5b805ae5be6620e1db28b3d97050c813897a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:15 +0000
Subject: [PATCH 30/67] fix: TreeDBM: restoration must keep the key comparator
 and the number of buckets

---
 tkrzw_dbm_tree.cc | 59 ++++++++++++++++++++++++++++-------------------
 tkrzw_dbm_tree.h  |  5 +++-
 2 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 4c4e632..9c022a6 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -366,6 +366,26 @@ Status DeserializeInnerNode(
   return Status(Status::SUCCESS);
 }
 
+static KeyComparator GetKeyComparatorByType(int32_t key_comp_type) {
+  switch (key_comp_type) {
+    case 1: return LexicalKeyComparator;
+    case 2: return LexicalCaseKeyComparator;
+    case 3: return DecimalKeyComparator;
+    case 4: return HexadecimalKeyComparator;
+    case 5: return RealNumberKeyComparator;
+    case 6: return SignedBigEndianKeyComparator;
+    case 7: return FloatBigEndianKeyComparator;
+    case 101: return PairLexicalKeyComparator;
+    case 102: return PairLexicalCaseKeyComparator;
+    case 103: return PairDecimalKeyComparator;
+    case 104: return PairHexadecimalKeyComparator;
+    case 105: return PairRealNumberKeyComparator;
+    case 106: return PairSignedBigEndianKeyComparator;
+    case 107: return PairFloatBigEndianKeyComparator;
+  }
+  return nullptr;
+}
+
 TreeDBMImpl::TreeDBMImpl(std::unique_ptr<File> file)
     : open_(false), writable_(false), healthy_(false), auto_restored_(false), path_(),
       num_records_(0), eff_data_size_(0),
@@ -459,7 +479,8 @@ Status TreeDBMImpl::Open(const std::string& path, bool writable,
     const std::string tmp_path = norm_path + ".tmp.restore";
     const int64_t end_offset = restore_mode == HashDBM::RESTORE_SYNC ? 0 : -1;
     RemoveFile(tmp_path);
-    status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key);
+    status = TreeDBM::RestoreDatabase(norm_path, tmp_path, end_offset, tuning_params.cipher_key,
+                                      tuning_params.key_comparator);
     if (status != Status::SUCCESS) {
       RemoveFile(tmp_path);
       return status;
@@ -1286,28 +1307,15 @@ Status TreeDBMImpl::LoadMetadata() {
   if (tree_level_ < 1) {
     return Status(Status::BROKEN_DATA_ERROR, "invalid tree level");
   }
-  switch (key_comp_type) {
-    case 1: key_comparator_ = LexicalKeyComparator; break;
-    case 2: key_comparator_ = LexicalCaseKeyComparator; break;
-    case 3: key_comparator_ = DecimalKeyComparator; break;
-    case 4: key_comparator_ = HexadecimalKeyComparator; break;
-    case 5: key_comparator_ = RealNumberKeyComparator; break;
-    case 6: key_comparator_ = SignedBigEndianKeyComparator; break;
-    case 7: key_comparator_ = FloatBigEndianKeyComparator; break;
-    case 101: key_comparator_ = PairLexicalKeyComparator; break;
-    case 102: key_comparator_ = PairLexicalCaseKeyComparator; break;
-    case 103: key_comparator_ = PairDecimalKeyComparator; break;
-    case 104: key_comparator_ = PairHexadecimalKeyComparator; break;
-    case 105: key_comparator_ = PairRealNumberKeyComparator; break;
-    case 106: key_comparator_ = PairSignedBigEndianKeyComparator; break;
-    case 107: key_comparator_ = PairFloatBigEndianKeyComparator; break;
-    case 255:
-      if (key_comparator_ == nullptr) {
-        return Status(Status::BROKEN_DATA_ERROR, "invalid_key_comparator");
-      }
-      break;
-    default:
+  if (key_comp_type == 255) {
+    if (key_comparator_ == nullptr) {
       return Status(Status::BROKEN_DATA_ERROR, "invalid_key_comparator");
+    }
+  } else {
+    key_comparator_ = GetKeyComparatorByType(key_comp_type);
+    if (key_comparator_ == nullptr) {
+      return Status(Status::BROKEN_DATA_ERROR, "invalid_key_comparator");
+    }
   }
   record_comp_ = TreeRecordComparator(key_comparator_);
   link_comp_ = TreeLinkComparator(key_comparator_);
@@ -2829,7 +2837,7 @@ Status TreeDBM::ParseMetadata(
 
 Status TreeDBM::RestoreDatabase(
     const std::string& old_file_path, const std::string& new_file_path,
-    int64_t end_offset, std::string_view cipher_key) {
+    int64_t end_offset, std::string_view cipher_key, KeyComparator key_comparator) {
   std::string tmp_file_path = old_file_path;
   if (end_offset == INT64MIN || end_offset == INT64MAX) {
     end_offset = end_offset == INT64MIN ? -1 : 0;
@@ -2879,7 +2887,7 @@ Status TreeDBM::RestoreDatabase(
   }
   int32_t offset_width = StrToInt(SearchMap(meta_map, "offset_width", "-1"));
   int32_t align_pow = StrToInt(SearchMap(meta_map, "align_pow", "-1"));
-  int64_t num_buckets = StrToInt(SearchMap(meta_map, "hash_num_buckets", "-1"));
+  int64_t num_buckets = StrToInt(SearchMap(meta_map, "num_buckets", "-1"));
   int64_t num_records = 0;
   int64_t eff_data_size = 0;
   int64_t root_id = 0;
@@ -2904,6 +2912,8 @@ Status TreeDBM::RestoreDatabase(
     num_buckets = std::max(tmp_dbm.CountSimple() * 2, DEFAULT_NUM_BUCKETS);
     max_page_size = -1;
     max_branches = -1;
+  } else if (GetKeyComparatorByType(key_comp_type) != nullptr) {
+    key_comparator = GetKeyComparatorByType(key_comp_type);
   }
   TuningParameters params;
   params.update_mode = tmp_dbm.GetUpdateMode();
@@ -2915,6 +2925,7 @@ Status TreeDBM::RestoreDatabase(
   params.cipher_key = cipher_key;
   params.max_page_size = max_page_size;
   params.max_branches = max_branches;
+  params.key_comparator = key_comparator;
   TreeDBM new_dbm;
   status = new_dbm.OpenAdvanced(new_file_path, true, File::OPEN_TRUNCATE, params);
   if (status != Status::SUCCESS) {
diff --git a/tkrzw_dbm_tree.h b/tkrzw_dbm_tree.h
index d0b6c9d..1234a74 100644
--- a/tkrzw_dbm_tree.h
+++ b/tkrzw_dbm_tree.h
@@ -596,11 +596,14 @@ class TreeDBM final : public DBM {
    * mean to omit restore of the underlying hash database.  Then, INT64MIN is unlimited and
    * INT64MAX means synched restoration.
    * @param cipher_key The encryption key for cipher compressors.
+   * @param key_comparator The comparator of record keys to be used if the broken database has a
+   * custom comparator or the metadata is lost.  If it is nullptr, the lexical comparator is used.
    * @return The result status.
    */
   static Status RestoreDatabase(
       const std::string& old_file_path, const std::string& new_file_path,
-      int64_t end_offset, std::string_view cipher_key = "");
+      int64_t end_offset, std::string_view cipher_key = "",
+      KeyComparator key_comparator = nullptr);
 
  private:
   /** Pointer to the actual implementation. */
-- 
2.43.0


From a80f3b4e6a95d4ebdcdfe044cacaafe9ce0a151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:16 +0000
Subject: [PATCH 31/67] fix: TreeDBM: pages which receive records must be
 written before the pages which give them are overwritten or removed

---
 tkrzw_dbm_tree.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index 9c022a6..e80a9cb 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -1807,9 +1807,13 @@ Status TreeDBMImpl::DivideNodes(TreeLeafNode* leaf_node, const std::string& node
     heir_id = inner_node->id;
     child_id = new_inner_node->id;
   }
+  // The new page must be in the file before the old page without the moved records.
+  status = SaveLeafNodeImpl(new_leaf_node.get());
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
     status = SaveLeafNodeImpl(leaf_node);
-    status |= SaveLeafNodeImpl(new_leaf_node.get());
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1890,13 +1894,12 @@ Status TreeDBMImpl::MergeNodes(TreeLeafNode* leaf_node, const std::string& node_
         iterator->leaf_id_ = prev_leaf_node->id;
       }
     }
-    RemoveLeafNode(leaf_node);
-    if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
-      status = SaveLeafNodeImpl(prev_leaf_node.get());
-      if (status != Status::SUCCESS) {
-        return status;
-      }
+    // The page which has got the records must be in the file before the other is removed.
+    status = SaveLeafNodeImpl(prev_leaf_node.get());
+    if (status != Status::SUCCESS) {
+      return status;
     }
+    RemoveLeafNode(leaf_node);
   } else if (next_leaf_node != nullptr) {
     next_leaf_node->records.swap(leaf_node->records);
     next_leaf_node->records.reserve(next_leaf_node->records.size() + leaf_node->records.size());
@@ -1925,13 +1928,12 @@ Status TreeDBMImpl::MergeNodes(TreeLeafNode* leaf_node, const std::string& node_
         iterator->leaf_id_ = next_leaf_node->id;
       }
     }
-    RemoveLeafNode(leaf_node);
-    if (page_update_mode_ == TreeDBM::PAGE_UPDATE_WRITE) {
-      status = SaveLeafNodeImpl(next_leaf_node.get());
-      if (status != Status::SUCCESS) {
-        return status;
-      }
+    // The page which has got the records must be in the file before the other is removed.
+    status = SaveLeafNodeImpl(next_leaf_node.get());
+    if (status != Status::SUCCESS) {
+      return status;
     }
+    RemoveLeafNode(leaf_node);
   }
   std::shared_ptr<TreeInnerNode> inner_node = std::move(parent_node);
   while (static_cast<int32_t>(inner_node->links.size()) < max_branches_ / 2) {
-- 
2.43.0


From 9333618187eb477e8fc17b389e56bdcd59ae1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:32 +0000
Subject: [PATCH 32/67] fix: HashDBM: the free block pool must be written
 before the file is marked as closed by Close or Synchronize

---
 tkrzw_dbm_hash.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 1e3c100..9f38b66 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -758,6 +758,9 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (update_logger_ != nullptr) {
     status |= update_logger_->Synchronize(hard);
   }
+  if (static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE) {
+    status |= SaveFBP();
+  }
   if (hard) {
     status |= file_->Synchronize(true);
     status |= SaveMetadata(true);
@@ -1265,8 +1268,9 @@ Status HashDBMImpl::CloseImpl() {
   if (writable_ && healthy_) {
     file_size_ = file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    status |= SaveMetadata(true);
+    // The free blocks must be consistent whenever the metadata tells that the file is closed.
     status |= SaveFBP();
+    status |= SaveMetadata(true);
   }
   open_ = false;
   writable_ = false;
-- 
2.43.0


From fd6b3fcf301bd6187fac2671efde6bb859556c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 33/67] fix: TreeDBM: RestoreDatabase must not remove the
 original file nor ignore failures of storing records

---
 tkrzw_dbm_tree.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index e80a9cb..cdf6539 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2856,9 +2856,14 @@ Status TreeDBM::RestoreDatabase(
   HashDBM::TuningParameters hash_params;
   hash_params.cipher_key = cipher_key;
   HashDBM tmp_dbm;
+  auto remove_tmp_file = [&]() {
+    if (tmp_file_path != old_file_path) {
+      RemoveFile(tmp_file_path);
+    }
+  };
   Status status = tmp_dbm.OpenAdvanced(tmp_file_path, false, File::OPEN_DEFAULT, hash_params);
   if (status != Status::SUCCESS) {
-    RemoveFile(tmp_file_path);
+    remove_tmp_file();
     return status;
   }
   const auto& meta = tmp_dbm.Inspect();
@@ -2932,7 +2937,7 @@ Status TreeDBM::RestoreDatabase(
   status = new_dbm.OpenAdvanced(new_file_path, true, File::OPEN_TRUNCATE, params);
   if (status != Status::SUCCESS) {
     tmp_dbm.Close();
-    RemoveFile(tmp_file_path);
+    remove_tmp_file();
     RemoveFile(new_file_path);
     return status;
   }
@@ -2940,7 +2945,8 @@ Status TreeDBM::RestoreDatabase(
   new_dbm.SetOpaqueMetadata(mini_opaque);
   class Loader final : public RecordProcessor {
    public:
-    explicit Loader(TreeDBM* dbm) : dbm_(dbm) {}
+    explicit Loader(TreeDBM* dbm) : dbm_(dbm), status_(Status::SUCCESS) {}
+    Status GetStatus() const { return status_; }
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       if (key.size() != PAGE_ID_WIDTH) {
         return NOOP;
@@ -2954,7 +2960,10 @@ Status TreeDBM::RestoreDatabase(
       std::vector<TreeRecord*> records;
       if (DeserializeLeafNode(value, &prev_id, &next_id, &records) == Status::SUCCESS) {
         for (const auto* rec : records) {
-          dbm_->Set(rec->GetKey(), rec->GetValue(), false);
+          const Status status = dbm_->Set(rec->GetKey(), rec->GetValue(), false);
+          if (status != Status::SUCCESS && status != Status::DUPLICATION_ERROR) {
+            status_ |= status;
+          }
         }
       }
       FreeTreeRecords(&records);
@@ -2962,13 +2971,13 @@ Status TreeDBM::RestoreDatabase(
     }
    private:
     TreeDBM* dbm_;
+    Status status_;
   } loader(&new_dbm);
   status = tmp_dbm.ProcessEach(&loader, false);
+  status |= loader.GetStatus();
   status |= new_dbm.Close();
   tmp_dbm.Close();
-  if (tmp_file_path != old_file_path) {
-    RemoveFile(tmp_file_path);
-  }
+  remove_tmp_file();
   return status;
 }
 
-- 
2.43.0


From d71483434871fe764974340e93ad969100ab2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 34/67] fix: MessageQueue: files whose names have more than the
 ten digits of the ID after the prefix do not belong to the queue

---
 tkrzw_message_queue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 1edab0c..9c465f3 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -622,7 +622,7 @@ Status MessageQueue::FindFiles(const std::string& prefix, std::vector<std::strin
   for (const auto& child : children) {
     if (StrBeginsWith(child, prefix_base)) {
       const std::string suffix = child.substr(prefix_base.size());
-      if (StrSearchRegex(suffix, "^\\.\\d{10}") >= 0) {
+      if (StrSearchRegex(suffix, "^\\.\\d{10}$") >= 0) {
         paths->emplace_back(JoinPath(dir_path, child));
       }
     }
-- 
2.43.0


From 8b69780676bf279bc081e927d56c28aa44a5300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 35/67] fix: MessageQueue: failure of writing a message or of
 switching files must not leave garbage before later messages

---
 tkrzw_message_queue.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 9c465f3..87ff549 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -408,8 +408,12 @@ Status MessageQueueImpl::WriteImpl(int64_t timestamp, std::string_view message)
     const std::string new_file_path = MakeFilePath(last_file_id_);
     last_file->SetAllocationStrategy(0, 0);
     status = last_file->Open(new_file_path, true, MessageQueue::OPEN_TRUNCATE);
-    status |= SynchronizeImpl(sync_hard_);
+    if (status == Status::SUCCESS) {
+      status = SynchronizeImpl(sync_hard_);
+    }
     if (status != Status::SUCCESS) {
+      files_.erase(last_file_id_);
+      last_file_id_--;
       return status;
     }
     last_file_ = last_file_sp;
@@ -428,7 +432,11 @@ Status MessageQueueImpl::WriteImpl(int64_t timestamp, std::string_view message)
   wp += message.size();
   const uint32_t checksum = HashChecksum8(write_buf, wp - write_buf) + 1;
   *(wp++) = checksum;
+  const int64_t file_size = last_file->GetSizeSimple();
   status = last_file->Append(write_buf, est_size);
+  if (status != Status::SUCCESS) {
+    last_file->Truncate(file_size);
+  }
   if (write_buf != stack) {
     xfree(write_buf);
   }
-- 
2.43.0


From 79cb8b606604099cac303c703ae0e2c11a896309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 36/67] fix: MessageQueue: opening after an interruption must
 accept incomplete records and files, verify records, and restore the
 timestamp; a failed opening must leave the queue closed

---
 tkrzw_message_queue.cc | 98 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 83 insertions(+), 15 deletions(-)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 87ff549..884dfd3 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -60,6 +60,8 @@ class MessageQueueImpl final {
 
  private:
   std::string MakeFilePath(int64_t file_id);
+  Status OpenLastFile(
+      File* last_file, const std::vector<std::string>& file_paths, int32_t options);
   Status SynchronizeImpl(bool hard);
   void ReleaseFiles();
   Status WriteImpl(int64_t timestamp, std::string_view message);
@@ -118,6 +120,27 @@ static Status CheckFileZeroRegion(File* file, int64_t offset, int64_t end_offset
   return Status(Status::SUCCESS);
 }
 
+static bool IsBlankFile(File* file) {
+  const int64_t file_size = file->GetSizeSimple();
+  return file_size == 0 ||
+      (file_size > 0 && CheckFileZeroRegion(file, 0, file_size) == Status::SUCCESS);
+}
+
+static bool IsIncompleteRecord(File* file, int64_t offset, int64_t file_size) {
+  char header[RECORD_HEADER_SIZE];
+  const int64_t header_size =
+      std::min<int64_t>(file_size - offset, static_cast<int64_t>(sizeof(header)));
+  if (header_size < 1 || file->Read(offset, header, header_size) != Status::SUCCESS ||
+      *(uint8_t*)header != RECORD_MAGIC_DATA) {
+    return false;
+  }
+  if (header_size < static_cast<int64_t>(sizeof(header))) {
+    return true;
+  }
+  const int64_t data_size = ReadFixNum(header + 7, 4);
+  return offset + header_size + data_size + 1 > file_size;
+}
+
 MessageQueueImpl::MessageQueueImpl()
     : prefix_(), max_file_size_(0), sync_hard_(false), read_only_(false),
       files_(), last_file_(nullptr), last_file_id_(0), cyclic_magic_(0), timestamp_(0),
@@ -155,6 +178,20 @@ Status MessageQueueImpl::Open(
   max_file_size_ = max_file_size;
   sync_hard_ = options & MessageQueue::OPEN_SYNC_HARD;
   read_only_ = options & MessageQueue::OPEN_READ_ONLY;
+  if (read_only_) {
+    // Skips the latest file if its metadata has not been written yet.
+    while (!file_paths.empty()) {
+      PositionalParallelFile file;
+      status = file.Open(file_paths.back(), false);
+      if (status != Status::SUCCESS) {
+        return status;
+      }
+      if (!IsBlankFile(&file)) {
+        break;
+      }
+      file_paths.pop_back();
+    }
+  }
   if (file_paths.empty()) {
     if (read_only_) {
       return Status(Status::NOT_FOUND_ERROR, "no matching file");
@@ -174,16 +211,37 @@ Status MessageQueueImpl::Open(
     files_.clear();
     return status;
   }
-  if (last_file->GetSizeSimple() == 0) {
-    status = SynchronizeImpl(sync_hard_);
+  status = OpenLastFile(last_file.get(), file_paths, options);
+  if (status != Status::SUCCESS) {
+    files_.clear();
+    return status;
+  }
+  last_file_ = last_file;
+  return Status(Status::SUCCESS);
+}
+
+Status MessageQueueImpl::OpenLastFile(
+    File* last_file, const std::vector<std::string>& file_paths, int32_t options) {
+  Status status(Status::SUCCESS);
+  if (!read_only_ && IsBlankFile(last_file)) {
+    // Sets up a new file, or a file whose creation was interrupted.
+    cyclic_magic_ = 0;
+    timestamp_ = 0;
+    if (file_paths.size() > 1) {
+      int64_t prev_file_id = 0;
+      int64_t prev_file_size = 0;
+      status = MessageQueue::ReadFileMetadata(
+          file_paths[file_paths.size() - 2], &prev_file_id, &timestamp_, &prev_file_size);
+    }
+    status |= last_file->Truncate(0);
+    status |= SynchronizeImpl(sync_hard_);
     if (status != Status::SUCCESS) {
-      files_.clear();
       return status;
     }
   }
   int64_t check_file_id = 0;
   int64_t check_file_size = 0;
-  status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
+  status = LoadMetadata(last_file, &cyclic_magic_, &check_file_id, &timestamp_,
                         &check_file_size);
   if (status != Status::SUCCESS) {
     return status;
@@ -191,7 +249,7 @@ Status MessageQueueImpl::Open(
   if (cyclic_magic_ < 0) {
     for (int32_t i = 0; i < RECORD_NUM_RETRIES && cyclic_magic_ < 0; i++) {
       SleepThread(SLEEP_TIME_PER_RETRY);
-      status = LoadMetadata(last_file.get(), &cyclic_magic_, &check_file_id, &timestamp_,
+      status = LoadMetadata(last_file, &cyclic_magic_, &check_file_id, &timestamp_,
                             &check_file_size);
       if (status != Status::SUCCESS) {
         return status;
@@ -207,25 +265,33 @@ Status MessageQueueImpl::Open(
   if (status != Status::SUCCESS) {
     if (options & MessageQueue::OPEN_IGNORE_BROKEN) {
       check_file_size = -1;
+      status = Status(Status::SUCCESS);
     } else {
       return status;
     }
   }
   const int64_t act_file_size = last_file->GetSizeSimple();
   if (check_file_size != act_file_size) {
-    if (!read_only_) {
+    const int64_t sync_file_size = check_file_size;
+    const bool is_in_sync_region = read_only_ && sync_file_size >= METADATA_SIZE &&
+        sync_file_size < act_file_size;
+    if (!is_in_sync_region) {
       int64_t offset = METADATA_SIZE;
       int64_t timestamp = 0;
       std::string message;
+      check_file_size = offset;
       while (MessageQueue::ReadNextMessage(
-                 last_file.get(), &offset, &timestamp, &message, INT64MAX) == Status::SUCCESS) {
+                 last_file, &offset, &timestamp, &message) == Status::SUCCESS) {
+        check_file_size = offset;
+        timestamp_ = std::max(timestamp, timestamp_);
       }
-      check_file_size = offset;
     }
-    if (check_file_size == act_file_size ||
+    if (check_file_size == act_file_size || is_in_sync_region ||
         (options & MessageQueue::OPEN_IGNORE_BROKEN) ||
         (check_file_size < act_file_size && CheckFileZeroRegion(
-            last_file.get(), check_file_size, act_file_size) == Status::SUCCESS)) {
+            last_file, check_file_size, act_file_size) == Status::SUCCESS) ||
+        (check_file_size >= sync_file_size && IsIncompleteRecord(
+            last_file, check_file_size, act_file_size))) {
       if (read_only_) {
         status |= last_file->TruncateFakely(check_file_size);
       } else {
@@ -235,11 +301,7 @@ Status MessageQueueImpl::Open(
       status |= Status(Status::BROKEN_DATA_ERROR, "inconsistent file size");
     }
   }
-  if (status != Status::SUCCESS) {
-    return status;
-  }
-  last_file_ = last_file;
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 Status MessageQueueImpl::Close() {
@@ -475,6 +537,9 @@ Status MessageQueueReaderImpl::Read(int64_t* timestamp, std::string* message, do
         return status;
       }
       for (const auto& path : file_paths) {
+        if (static_cast<int64_t>(MessageQueue::GetFileID(path)) > queue_->last_file_id_) {
+          break;
+        }
         int64_t file_id = 0;
         int64_t timestamp = 0;
         int64_t file_size = 0;
@@ -735,6 +800,9 @@ Status MessageQueue::ReadNextMessage(
   }
   *file_offset += sizeof(header);
   if (*timestamp >= min_timestamp) {
+    if (*file_offset + static_cast<int64_t>(data_size) + 1 > file->GetSizeSimple()) {
+      return Status(Status::BROKEN_DATA_ERROR, "excessive data size");
+    }
     message->resize(data_size + 1);
     status = file->Read(*file_offset, const_cast<char*>(message->data()), data_size + 1);
     if (status != Status::SUCCESS) {
-- 
2.43.0


From c23699fa8e02c2d8c8597cb8fb9a02a902d7444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:30 +0000
Subject: [PATCH 37/67] fix: MessageQueue: a new reader must skip files which
 are removed while it looks for the first one

---
 tkrzw_message_queue.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index 884dfd3..a39ebf8 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -544,6 +544,9 @@ Status MessageQueueReaderImpl::Read(int64_t* timestamp, std::string* message, do
         int64_t timestamp = 0;
         int64_t file_size = 0;
         status = MessageQueue::ReadFileMetadata(path, &file_id, &timestamp, &file_size);
+        if (status == Status::NOT_FOUND_ERROR) {
+          continue;
+        }
         if (status != Status::SUCCESS) {
           return status;
         }
-- 
2.43.0


From f304d18abf2971e0941498fb72312af3e46c9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:50 +0000
Subject: [PATCH 38/67] fix: DBMUpdateLoggerMQ: sizes in a broken message must
 not exceed it, failure of applying a log must be reported, and files without
 messages must be accepted

---
 tkrzw_dbm_ulog.cc      | 20 ++++++++++++--------
 tkrzw_message_queue.cc |  2 +-
 tkrzw_message_queue.h  |  3 +++
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/tkrzw_dbm_ulog.cc b/tkrzw_dbm_ulog.cc
index f1101ab..de1dc21 100644
--- a/tkrzw_dbm_ulog.cc
+++ b/tkrzw_dbm_ulog.cc
@@ -233,7 +233,7 @@ Status DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view message, UpdateLog* op
       if (step < 1) {
         return Status(Status::BROKEN_DATA_ERROR, "invalid key size");
       }
-      const int32_t key_size = num;
+      const uint64_t key_size = num;
       rp += step;
       record_size -= step;
       if (record_size < 1) {
@@ -243,10 +243,11 @@ Status DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view message, UpdateLog* op
       if (step < 1) {
         return Status(Status::BROKEN_DATA_ERROR, "invalid value size");
       }
-      const int32_t value_size = num;
+      const uint64_t value_size = num;
       rp += step;
       record_size -= step;
-      if (key_size + value_size != record_size) {
+      const uint64_t data_size = record_size;
+      if (key_size > data_size || value_size != data_size - key_size) {
         return Status(Status::BROKEN_DATA_ERROR, "inconsistent data size");
       }
       op->op_type = OP_SET;
@@ -262,10 +263,10 @@ Status DBMUpdateLoggerMQ::ParseUpdateLog(std::string_view message, UpdateLog* op
       if (step < 1) {
         return Status(Status::BROKEN_DATA_ERROR, "invalid key size");
       }
-      const int32_t key_size = num;
+      const uint64_t key_size = num;
       rp += step;
       record_size -= step;
-      if (key_size != record_size) {
+      if (key_size != static_cast<uint64_t>(record_size)) {
         return Status(Status::BROKEN_DATA_ERROR, "inconsistent data size");
       }
       op->op_type = OP_REMOVE;
@@ -314,6 +315,9 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
       break;
     case OP_REMOVE:
       status = dbm->Remove(op.key);
+      if (status == Status::NOT_FOUND_ERROR) {
+        status = Status(Status::SUCCESS);
+      }
       break;
     case OP_CLEAR:
       status = dbm->Clear();
@@ -321,7 +325,7 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLog(
     default:
       break;
   }
-  return Status(Status::SUCCESS);
+  return status;
 }
 
 Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
@@ -349,14 +353,14 @@ Status DBMUpdateLoggerMQ::ApplyUpdateLogFromFiles(
       return status;
     }
     file_size = std::min(file_size, file.GetSizeSimple());
-    int64_t file_offset = 0;
+    int64_t file_offset = MessageQueue::METADATA_SIZE;
     std::string message;
     while (file_offset < file_size) {
       status = tkrzw::MessageQueue::ReadNextMessage(
           &file, &file_offset, &timestamp, &message);
       if (status != Status::SUCCESS) {
         if (status == Status::CANCELED_ERROR) {
-          continue;
+          break;
         }
         return status;
       }
diff --git a/tkrzw_message_queue.cc b/tkrzw_message_queue.cc
index a39ebf8..1c0ebfc 100644
--- a/tkrzw_message_queue.cc
+++ b/tkrzw_message_queue.cc
@@ -26,7 +26,7 @@
 
 namespace tkrzw {
 
-static constexpr int32_t METADATA_SIZE = 32;
+static constexpr int32_t METADATA_SIZE = MessageQueue::METADATA_SIZE;
 static constexpr char META_MAGIC_DATA[] = "TkrzwMQX\n";
 static constexpr int32_t META_OFFSET_CYCLIC_MAGIC_FRONT = 9;
 static constexpr int32_t META_OFFSET_FILE_ID = 10;
diff --git a/tkrzw_message_queue.h b/tkrzw_message_queue.h
index 19da217..46cd537 100644
--- a/tkrzw_message_queue.h
+++ b/tkrzw_message_queue.h
@@ -35,6 +35,9 @@ class MessageQueueReaderImpl;
  */
 class MessageQueue final {
  public:
+  /** The size of the metadata, which is followed by messages, of each file. */
+  static constexpr int32_t METADATA_SIZE = 32;
+
   /**
    * Messsage reader.
    */
-- 
2.43.0


From ef6b182311e6b50bd4f3fd644037ebed7d898a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:50 +0000
Subject: [PATCH 39/67] fix: ShardDBM: removing the update logger must remove
 it from all shards

---
 tkrzw_dbm_shard.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index a86bc1b..34b01a2 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -617,7 +617,7 @@ void ShardDBM::SetUpdateLogger(UpdateLogger* update_logger) {
       dbm->SetUpdateLogger(update_logger);
       first = false;
     } else {
-      dbm->SetUpdateLogger(&ulog_second_);
+      dbm->SetUpdateLogger(update_logger == nullptr ? nullptr : &ulog_second_);
     }
   }
 }
-- 
2.43.0


From 50d02c5f62ea72a2acac128736645b2ff407057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:54 +0000
Subject: [PATCH 40/67] fix: FlatRecordReader: zeros up to the end of the file
 which a stopped process left must be taken as the end

---
 tkrzw_file_util.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index cb9aad1..e9093f3 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1312,6 +1312,26 @@ FlatRecordReader::~FlatRecordReader() {
   delete[] buffer_;
 }
 
+// Checks data without the record magic: zeros up to the end of the file are not a record.
+static Status CheckFlatRecordEnd(File* file, int64_t offset) {
+  const int64_t end_offset = file->GetSizeSimple();
+  char buf[8192];
+  while (offset < end_offset) {
+    const int64_t size = std::min<int64_t>(end_offset - offset, sizeof(buf));
+    const Status status = file->Read(offset, buf, size);
+    if (status != Status::SUCCESS) {
+      return status;
+    }
+    for (int64_t i = 0; i < size; i++) {
+      if (buf[i] != 0) {
+        return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+      }
+    }
+    offset += size;
+  }
+  return Status(Status::NOT_FOUND_ERROR);
+}
+
 Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec_type) {
   constexpr int64_t min_record_size = sizeof(uint8_t) * 2;
   constexpr size_t max_header_size = sizeof(uint8_t) + sizeof(uint64_t);
@@ -1327,7 +1347,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
         *rec_type = FlatRecord::RECORD_METADATA;
       }
     } else {
-      return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+      return CheckFlatRecordEnd(file_, offset_);
     }
     rp++;
     record_size--;
@@ -1372,7 +1392,7 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
       *rec_type = FlatRecord::RECORD_METADATA;
     }
   } else {
-    return Status(Status::BROKEN_DATA_ERROR, "invalid record magic number");
+    return CheckFlatRecordEnd(file_, offset_);
   }
   rp++;
   record_size--;
-- 
2.43.0


From d1584021355fc1299527c2f737b1891eeb0e05a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:54 +0000
Subject: [PATCH 41/67] fix: SkipDBM: a file whose initialization was
 interrupted must be initialized again; failed opening must close the file

---
 tkrzw_dbm_skip.cc | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index b3aaf3a..b48723d 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -113,6 +113,7 @@ class SkipDBMImpl final {
 
  private:
   void CancelIterators();
+  bool IsInitializationIncomplete();
   Status SaveMetadata(File* file, bool finish);
   Status LoadMetadata();
   Status CheckFileBeforeOpen(File* file, const std::string& path, bool writable);
@@ -245,16 +246,21 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
   if (status != Status::SUCCESS) {
     return status;
   }
-  if (writable && file_->GetSizeSimple() < 1) {
-    file_->Truncate(METADATA_SIZE);
+  if (writable && (file_->GetSizeSimple() < 1 || IsInitializationIncomplete())) {
+    status = file_->Truncate(METADATA_SIZE);
+    if (status != Status::SUCCESS) {
+      file_->Close();
+      return status;
+    }
     const auto version_nums = StrSplit(PACKAGE_VERSION, '.');
     pkg_major_version_ = version_nums.size() > 0 ? StrToInt(version_nums[0]) : 0;
     pkg_minor_version_ = version_nums.size() > 1 ? StrToInt(version_nums[1]) : 0;
     closure_flags_ |= CLOSURE_FLAG_CLOSE;
     file_size_ = file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
-    const Status status = SaveMetadata(file_.get(), true);
+    status = SaveMetadata(file_.get(), true);
     if (status != Status::SUCCESS) {
+      file_->Close();
       return status;
     }
   }
@@ -335,12 +341,14 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
   if (writable && healthy) {
     status = SaveMetadata(file_.get(), false);
     if (status != Status::SUCCESS) {
-      path_ .clear();
+      file_->Close();
+      path_.clear();
       return status;
     }
     status = PrepareStorage();
     if (status != Status::SUCCESS) {
-      path_ .clear();
+      file_->Close();
+      path_.clear();
       return status;
     }
   }
@@ -1118,6 +1126,23 @@ void SkipDBMImpl::CancelIterators() {
   }
 }
 
+bool SkipDBMImpl::IsInitializationIncomplete() {
+  // The metadata is written at the end of initialization and always has a timestamp.
+  char meta[METADATA_SIZE];
+  std::memset(meta, 0, METADATA_SIZE);
+  const int64_t size = std::min<int64_t>(file_->GetSizeSimple(), METADATA_SIZE);
+  if (file_->Read(0, meta, size) != Status::SUCCESS) {
+    return false;
+  }
+  constexpr int32_t magic_size = sizeof(META_MAGIC_DATA) - 1;
+  int32_t match_size = 0;
+  while (match_size < magic_size && meta[match_size] == META_MAGIC_DATA[match_size]) {
+    match_size++;
+  }
+  const int32_t null_offset = match_size < magic_size ? match_size : META_OFFSET_TIMESTAMP;
+  return std::all_of(meta + null_offset, meta + METADATA_SIZE, [](char c) { return c == 0; });
+}
+
 Status SkipDBMImpl::SaveMetadata(File* file, bool finish) {
   cyclic_magic_++;
   char meta[METADATA_SIZE];
-- 
2.43.0


From 829d5ca71509eb0df8c3ab79fbf9838df0c1c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:18 +0000
Subject: [PATCH 42/67] fix: ShardDBM: a failed opening must not leave its
 shards to be added to those of the next one

---
 tkrzw_dbm_shard.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 34b01a2..6128945 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -104,6 +104,7 @@ Status ShardDBM::OpenAdvanced(
       for (int32_t j = i - 1; j >= 0; j--) {
         dbms_[j]->Close();
       }
+      dbms_.clear();
       return status;
     }
   }
@@ -118,6 +119,7 @@ Status ShardDBM::OpenAdvanced(
     for (int32_t i = dbms_.size() - 1; i >= 0; i--) {
       dbms_[i]->Close();
     }
+    dbms_.clear();
     return status;
   }
   open_ = true;
-- 
2.43.0


From ee9aed85a5fc6e9adca1a2d696d0abf60b9024d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:18 +0000
Subject: [PATCH 43/67] fix: PolyDBM: the names of the case-insensitive
 comparators must be recognized

---
 tkrzw_dbm_poly.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index b147305..d986299 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -95,7 +95,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
   if (lower_name == "lexicalkeycomparator" || lower_name == "lexical") {
     return LexicalKeyComparator;
   }
-  if (lower_name == "lexicalCasekeycomparator" || lower_name == "lexicalcase") {
+  if (lower_name == "lexicalcasekeycomparator" || lower_name == "lexicalcase") {
     return LexicalCaseKeyComparator;
   }
   if (lower_name == "decimalkeycomparator" || lower_name == "decimal") {
@@ -116,7 +116,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
   if (lower_name == "pairlexicalkeycomparator" || lower_name == "pairlexical") {
     return PairLexicalKeyComparator;
   }
-  if (lower_name == "pairlexicalCasekeycomparator" || lower_name == "pairlexicalcase") {
+  if (lower_name == "pairlexicalcasekeycomparator" || lower_name == "pairlexicalcase") {
     return PairLexicalCaseKeyComparator;
   }
   if (lower_name == "pairdecimalkeycomparator" || lower_name == "pairdecimal") {
@@ -139,7 +139,7 @@ static KeyComparator GetKeyComparatorByName(const std::string& comp_name) {
 
 static SkipDBM::ReducerType GetReducerByName(const std::string& func_name) {
   const std::string lower_name = StrLowerCase(func_name);
-  if (lower_name == "reduceremove" || func_name == "remove") {
+  if (lower_name == "reduceremove" || lower_name == "remove") {
     return SkipDBM::ReduceRemove;
   } else if (lower_name == "reducetofirst" || lower_name == "first") {
     return SkipDBM::ReduceToFirst;
-- 
2.43.0


From 81cb06b347e5850e2667dbe4eceeef4b543d39a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 44/67] fix: SearchDBMModal: upper and lower searches must
 clear the result and take the capacity of 0 as unlimited

---
 tkrzw_dbm_common_impl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tkrzw_dbm_common_impl.cc b/tkrzw_dbm_common_impl.cc
index 278628e..aa7a525 100644
--- a/tkrzw_dbm_common_impl.cc
+++ b/tkrzw_dbm_common_impl.cc
@@ -113,6 +113,10 @@ Status SearchDBMLambda(
 Status SearchDBMOrder(DBM* dbm, std::string_view pattern, bool upper, bool inclusive,
                       std::vector<std::string>* matched, size_t capacity) {
   assert(dbm != nullptr && matched != nullptr);
+  if (capacity == 0) {
+    capacity = SIZE_MAX;
+  }
+  matched->clear();
   auto iter = dbm->MakeIterator();
   Status status =
       upper ? iter->JumpUpper(pattern, inclusive) : iter->JumpLower(pattern, inclusive);
@@ -131,7 +135,10 @@ Status SearchDBMOrder(DBM* dbm, std::string_view pattern, bool upper, bool inclu
     matched->emplace_back(std::move(key));
     status = upper ? iter->Next() : iter->Previous();
     if (status != Status::SUCCESS) {
-      return status;
+      if (status != Status::NOT_FOUND_ERROR) {
+        return status;
+      }
+      break;
     }
   }
   return Status(Status::SUCCESS);
-- 
2.43.0


From b3aa157c39ba58f79b80f9e637dd3a4ff1d7348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:45 +0000
Subject: [PATCH 45/67] fix: ShardDBM::Iterator: updates must keep the order
 and the record, and Jump to a missing key of an unordered database must fail

---
 tkrzw_dbm_shard.cc | 52 ++++++++++++++++++++++++----------------------
 tkrzw_dbm_shard.h  |  5 +++++
 2 files changed, 32 insertions(+), 25 deletions(-)

diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 6128945..628863c 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -702,6 +702,7 @@ Status ShardDBM::Iterator::Last() {
 
 Status ShardDBM::Iterator::Jump(std::string_view key) {
   heap_.clear();
+  bool jumped = false;
   for (auto& slot : slots_) {
     Status status = slot.iter->Jump(key);
     if (status != Status::SUCCESS) {
@@ -710,6 +711,7 @@ Status ShardDBM::Iterator::Jump(std::string_view key) {
       }
       continue;
     }
+    jumped = true;
     status = slot.iter->Get(&slot.key, &slot.value);
     if (status == Status::SUCCESS) {
       heap_.emplace_back(&slot);
@@ -720,7 +722,7 @@ Status ShardDBM::Iterator::Jump(std::string_view key) {
     }
   }
   asc_ = true;
-  return Status(Status::SUCCESS);
+  return jumped ? Status(Status::SUCCESS) : Status(Status::NOT_FOUND_ERROR);
 }
 
 Status ShardDBM::Iterator::JumpLower(std::string_view key, bool inclusive) {
@@ -836,34 +838,27 @@ Status ShardDBM::Iterator::Process(RecordProcessor* proc, bool writable) {
   auto* slot = heap_.front();
   class Checker : public DBM::RecordProcessor {
    public:
-    explicit Checker(RecordProcessor* proc) : proc_(proc), removed_(false)  {}
+    explicit Checker(RecordProcessor* proc) : proc_(proc), updated_(false)  {}
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       const std::string_view rv = proc_->ProcessFull(key, value);
-      if (rv.data() == REMOVE.data()) {
-        removed_ = true;
+      if (rv.data() != NOOP.data()) {
+        updated_ = true;
       }
       return rv;
     }
     std::string_view ProcessEmpty(std::string_view key) override {
       return proc_->ProcessEmpty(key);
     }
-    bool HasRemoved() const {
-      return removed_;
+    bool HasUpdated() const {
+      return updated_;
     }
    private:
     DBM::RecordProcessor* proc_;
-    bool removed_;
+    bool updated_;
   } checker(proc);
   const Status status = slot->iter->Process(&checker, writable);
-  if (status == Status::SUCCESS && writable && checker.HasRemoved()) {
-    std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    slot = heap_.back();
-    const Status get_status = slot->iter->Get(&slot->key, &slot->value);
-    if (get_status == Status::SUCCESS) {
-      std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    } else {
-      heap_.pop_back();
-    }
+  if (status == Status::SUCCESS && writable && checker.HasUpdated()) {
+    RefreshFront();
   }
   return status;
 }
@@ -890,7 +885,7 @@ Status ShardDBM::Iterator::Set(
   auto* slot = heap_.front();
   const Status status = slot->iter->Set(value, old_key, old_value);
   if (status == Status::SUCCESS) {
-    slot->value = value;
+    RefreshFront();
   }
   return status;
 }
@@ -902,18 +897,25 @@ Status ShardDBM::Iterator::Remove(std::string* old_key, std::string* old_value)
   auto* slot = heap_.front();
   const Status status = slot->iter->Remove(old_key, old_value);
   if (status == Status::SUCCESS) {
-    std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    slot = heap_.back();
-    const Status get_status = slot->iter->Get(&slot->key, &slot->value);
-    if (get_status == Status::SUCCESS) {
-      std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, true));
-    } else {
-      heap_.pop_back();
-    }
+    RefreshFront();
   }
   return status;
 }
 
+void ShardDBM::Iterator::RefreshFront() {
+  std::pop_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, asc_));
+  auto* slot = heap_.back();
+  const std::string old_key = slot->key;
+  const Status status = slot->iter->Get(&slot->key, &slot->value);
+  if (!asc_ && (status != Status::SUCCESS || slot->key != old_key)) {
+    Jump(old_key);
+  } else if (status == Status::SUCCESS) {
+    std::push_heap(heap_.begin(), heap_.end(), ShardSlotComparator(comp_, asc_));
+  } else {
+    heap_.pop_back();
+  }
+}
+
 Status ShardDBM::GetNumberOfShards(const std::string& path, int32_t* num_shards) {
   assert(num_shards != nullptr);
   const std::string dir_path = tkrzw::PathToDirectoryName(path);
diff --git a/tkrzw_dbm_shard.h b/tkrzw_dbm_shard.h
index 35ac034..fcb1ab8 100644
--- a/tkrzw_dbm_shard.h
+++ b/tkrzw_dbm_shard.h
@@ -215,6 +215,11 @@ class ShardDBM final : public ParamDBM {
      */
     explicit Iterator(std::vector<std::shared_ptr<PolyDBM>>* dbms);
 
+    /**
+     * Updates the slot of the current record after an operation through its iterator.
+     */
+    void RefreshFront();
+
     /** The shard slots. */
     std::vector<ShardSlot> slots_;
     /** The heap to get the mimimum record. */
-- 
2.43.0


From 9063a903972961752ba9f7746a8ede5f49c7bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:32 +0000
Subject: [PATCH 46/67] fix: StdFile::Expand with zero reports the old size and
 a failed Rename keeps the file open

---
 tkrzw_file_std.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_std.cc b/tkrzw_file_std.cc
index d493a00..723129f 100644
--- a/tkrzw_file_std.cc
+++ b/tkrzw_file_std.cc
@@ -233,7 +233,7 @@ Status StdFileImpl::Rename(const std::string& new_path) {
   }
   status = RenameFile(old_path, new_path);
   if (status != Status::SUCCESS) {
-    OpenImpl(new_path, writable, options);
+    OpenImpl(old_path, writable, options);
     return status;
   }
   return OpenImpl(new_path, writable, options);
@@ -419,6 +419,9 @@ Status StdFileImpl::AppendImpl(const void* buf, size_t size, int64_t* off) {
 
 Status StdFileImpl::ExpandImpl(size_t inc_size, int64_t* old_size) {
   if (inc_size == 0) {
+    if (old_size != nullptr) {
+      *old_size = file_size_;
+    }
     return Status(Status::SUCCESS);
   }
   file_->clear();
-- 
2.43.0


From 037c5d27be96d11a8e3d9dcfcf6ef31a287459dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:32 +0000
Subject: [PATCH 47/67] fix: PageCache keeps data of a page partly written
 beyond its first request

---
 tkrzw_file_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index e9093f3..b55310e 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -970,7 +970,9 @@ PageCache::PageRequest* PageCache::MakePageRequest(
   if (off_rem != 0) {
     const int64_t page_off = off - off_rem;
     const int64_t copy_size = std::min<int64_t>(size, page_size_ - off_rem);
-    requests[(*num_requests)++] = PageRequest({page_off, off_rem, page_size_, copy_size});
+    const int64_t data_size =
+        std::max(off_rem + copy_size, std::min(region_size_.load() - page_off, page_size_));
+    requests[(*num_requests)++] = PageRequest({page_off, off_rem, data_size, copy_size});
     off += copy_size;
     size -= copy_size;
   }
-- 
2.43.0


From b109de979e234de52c4fe814ec98b99e448f40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:32 +0000
Subject: [PATCH 48/67] fix: positional files with a head buffer or with the
 exact allocation lost or refused data

---
 tkrzw_file_pos.cc | 52 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index a4e472d..16b7e56 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -86,7 +86,7 @@ class PositionalParallelFileImpl final {
   bool IsDirectIO();
 
  private:
-  Status AllocateSpace(int64_t min_size);
+  Status AllocateSpace(int64_t min_size, bool filled);
   Status ReadImpl(int64_t off, char* buf, size_t size);
   Status WriteImpl(int64_t off, const char* buf, size_t size);
 
@@ -303,7 +303,7 @@ Status PositionalParallelFileImpl::Write(int64_t off, const void* buf, size_t si
     return Status(Status::PRECONDITION_ERROR, "not writable file");
   }
   const int64_t end_position = off + size;
-  const Status status = AllocateSpace(AlignNumber(end_position, block_size_));
+  const Status status = AllocateSpace(AlignNumber(end_position, block_size_), size > 0);
   if (status != Status::SUCCESS) {
     return status;
   }
@@ -328,7 +328,7 @@ Status PositionalParallelFileImpl::Append(const void* buf, size_t size, int64_t*
   while (true) {
     position = file_size_.load();
     const int64_t end_position = position + size;
-    const Status status = AllocateSpace(AlignNumber(end_position, block_size_));
+    const Status status = AllocateSpace(AlignNumber(end_position, block_size_), buf != nullptr);
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -359,7 +359,7 @@ Status PositionalParallelFileImpl::Truncate(int64_t size) {
   }
   int64_t new_trunc_size = 0;
   if (alloc_inc_factor_ <= 0) {
-    new_trunc_size = std::max(size, alloc_init_size_);
+    new_trunc_size = AlignNumber(std::max(size, alloc_init_size_), block_size_);
   } else {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
@@ -441,7 +441,9 @@ Status PositionalParallelFileImpl::SetHeadBuffer(int64_t size) {
     page_cache_->Clear();
   }
   if (head_buffer_ != nullptr) {
-    status |= PWriteSequence(fd_, 0, head_buffer_, head_buffer_size_);
+    if (writable_) {
+      status |= PWriteSequence(fd_, 0, head_buffer_, head_buffer_size_);
+    }
     xfreealigned(head_buffer_);
   }
   if (size < 1) {
@@ -453,7 +455,8 @@ Status PositionalParallelFileImpl::SetHeadBuffer(int64_t size) {
   head_buffer_ = static_cast<char*>(xmallocaligned(
       std::max<int64_t>(sizeof(void*), block_size_), head_buffer_size_));
   std::memset(head_buffer_, 0, head_buffer_size_);
-  const int64_t read_size = std::min<int64_t>(head_buffer_size_, file_size_.load());
+  const int64_t read_size = std::min<int64_t>(head_buffer_size_, std::min<int64_t>(
+      AlignNumber(file_size_.load(), block_size_), trunc_size_.load()));
   status |= PReadSequence(fd_, 0, head_buffer_, read_size);
   return status;
 }
@@ -531,7 +534,7 @@ bool PositionalParallelFileImpl::IsDirectIO() {
   return access_options_ & PositionalFile::ACCESS_DIRECT;
 }
 
-Status PositionalParallelFileImpl::AllocateSpace(int64_t min_size) {
+Status PositionalParallelFileImpl::AllocateSpace(int64_t min_size, bool filled) {
   if (min_size <= trunc_size_.load()) {
     return Status(Status::SUCCESS);
   }
@@ -540,7 +543,16 @@ Status PositionalParallelFileImpl::AllocateSpace(int64_t min_size) {
     return Status(Status::SUCCESS);
   }
   if (alloc_inc_factor_ <= 0) {
+    if (!filled || block_size_ > 1) {
+      const Status status = TruncateFile(fd_, min_size);
+      if (status != Status::SUCCESS) {
+        return status;
+      }
+    }
     trunc_size_.store(min_size);
+    if (page_cache_ != nullptr) {
+      page_cache_->SetRegionSize(trunc_size_.load());
+    }
     return Status(Status::SUCCESS);
   }
   int64_t new_trunc_size =
@@ -784,7 +796,7 @@ class PositionalAtomicFileImpl final {
   bool IsDirectIO();
 
  private:
-  Status AllocateSpace(int64_t min_size);
+  Status AllocateSpace(int64_t min_size, bool filled);
   Status ReadImpl(int64_t off, char* buf, size_t size);
   Status WriteImpl(int64_t off, const char* buf, size_t size);
 
@@ -1002,7 +1014,7 @@ Status PositionalAtomicFileImpl::Write(int64_t off, const void* buf, size_t size
     return Status(Status::PRECONDITION_ERROR, "not writable file");
   }
   const int64_t end_position = off + size;
-  const Status status = AllocateSpace(AlignNumber(end_position, block_size_));
+  const Status status = AllocateSpace(AlignNumber(end_position, block_size_), size > 0);
   if (status != Status::SUCCESS) {
     return status;
   }
@@ -1020,7 +1032,7 @@ Status PositionalAtomicFileImpl::Append(const void* buf, size_t size, int64_t* o
   }
   int64_t position = file_size_;
   const int64_t end_position = position + size;
-  const Status status = AllocateSpace(AlignNumber(end_position, block_size_));
+  const Status status = AllocateSpace(AlignNumber(end_position, block_size_), buf != nullptr);
   if (status != Status::SUCCESS) {
     return status;
   }
@@ -1049,7 +1061,7 @@ Status PositionalAtomicFileImpl::Truncate(int64_t size) {
   }
   int64_t new_trunc_size = 0;
   if (alloc_inc_factor_ <= 0) {
-    new_trunc_size = std::max(size, alloc_init_size_);
+    new_trunc_size = AlignNumber(std::max(size, alloc_init_size_), block_size_);
   } else {
     new_trunc_size = std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
     new_trunc_size = AlignNumber(new_trunc_size, std::max<int64_t>(PAGE_SIZE, block_size_));
@@ -1135,7 +1147,9 @@ Status PositionalAtomicFileImpl::SetHeadBuffer(int64_t size) {
     page_cache_->Clear();
   }
   if (head_buffer_ != nullptr) {
-    status |= PWriteSequence(fd_, 0, head_buffer_, head_buffer_size_);
+    if (writable_) {
+      status |= PWriteSequence(fd_, 0, head_buffer_, head_buffer_size_);
+    }
     xfreealigned(head_buffer_);
   }
   if (size < 1) {
@@ -1146,7 +1160,8 @@ Status PositionalAtomicFileImpl::SetHeadBuffer(int64_t size) {
   head_buffer_size_ = std::max<int64_t>(sizeof(void*), AlignNumber(size, block_size_));
   head_buffer_ = static_cast<char*>(xmallocaligned(block_size_, head_buffer_size_));
   std::memset(head_buffer_, 0, head_buffer_size_);
-  const int64_t read_size = std::min<int64_t>(head_buffer_size_, file_size_);
+  const int64_t read_size = std::min<int64_t>(head_buffer_size_, std::min<int64_t>(
+      AlignNumber(file_size_, block_size_), trunc_size_));
   status |= PReadSequence(fd_, 0, head_buffer_, read_size);
   return status;
 }
@@ -1233,12 +1248,21 @@ bool PositionalAtomicFileImpl::IsDirectIO() {
   return access_options_ & PositionalFile::ACCESS_DIRECT;
 }
 
-Status PositionalAtomicFileImpl::AllocateSpace(int64_t min_size) {
+Status PositionalAtomicFileImpl::AllocateSpace(int64_t min_size, bool filled) {
   if (min_size <= trunc_size_) {
     return Status(Status::SUCCESS);
   }
   if (alloc_inc_factor_ <= 0) {
+    if (!filled || block_size_ > 1) {
+      const Status status = TruncateFile(fd_, min_size);
+      if (status != Status::SUCCESS) {
+        return status;
+      }
+    }
     trunc_size_ = min_size;
+    if (page_cache_ != nullptr) {
+      page_cache_->SetRegionSize(trunc_size_);
+    }
     return Status(Status::SUCCESS);
   }
   int64_t new_trunc_size =
-- 
2.43.0


From c5390223a179e48ca50b582a7cf2ed1408442439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:34 +0000
Subject: [PATCH 49/67] fix: StdIndex::GetValues misses values less than the
 default value

---
 tkrzw_index.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tkrzw_index.h b/tkrzw_index.h
index b549083..1162144 100644
--- a/tkrzw_index.h
+++ b/tkrzw_index.h
@@ -1293,7 +1293,11 @@ inline std::vector<VALUETYPE> StdIndex<KEYTYPE, VALUETYPE, CMPTYPE>::GetValues(
   std::shared_lock<std::shared_timed_mutex> lock(mutex_);
   const auto& const_records = records_;
   std::vector<VALUETYPE> values;
-  auto it = records_.lower_bound(std::make_pair(key, VALUETYPE()));
+  auto it = const_records.lower_bound(std::make_pair(key, VALUETYPE()));
+  // The default value is not always the least one.
+  while (it != const_records.begin() && std::prev(it)->first == key) {
+    --it;
+  }
   while (it != const_records.end()) {
     if (max > 0 && values.size() >= max) {
       break;
-- 
2.43.0


From 0d71ad417f27fda6aac6e70895383d729ee751c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:18 +0000
Subject: [PATCH 50/67] fix: partial hard synchronization of positional files
 does not make the file size durable

---
 tkrzw_file_pos.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_file_pos.cc b/tkrzw_file_pos.cc
index 16b7e56..6482896 100644
--- a/tkrzw_file_pos.cc
+++ b/tkrzw_file_pos.cc
@@ -53,9 +53,9 @@ inline void AdviseFileRandomAccessPattern(int32_t fd) {
 
 inline int32_t tkrzw_fsync_range(int32_t fd, int64_t off, int64_t size) {
 #if defined(_SYS_LINUX_)
-  constexpr int32_t flags =
-      SYNC_FILE_RANGE_WAIT_BEFORE | SYNC_FILE_RANGE_WRITE | SYNC_FILE_RANGE_WAIT_AFTER;
-  return sync_file_range(fd, off, size, flags);
+  // sync_file_range is not usable because it doesn't make the file size and other metadata
+  // necessary to retrieve the data durable.
+  return fdatasync(fd);
 #else
   return fsync(fd);
 #endif
-- 
2.43.0


From 4945a0fad57ba57dc11c5a9f268094e20cb2d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:18 +0000
Subject: [PATCH 51/67] fix: HashDBM closing with hard synchronization marks
 the file clean before the records are durable

---
 tkrzw_dbm_hash.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 9f38b66..35b2dd8 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -182,6 +182,7 @@ class HashDBMImpl final {
   bool writable_;
   bool healthy_;
   bool auto_restored_;
+  bool sync_hard_;
   std::string path_;
   int32_t cyclic_magic_;
   int32_t pkg_major_version_;
@@ -231,8 +232,8 @@ class HashDBMIteratorImpl final {
 };
 
 HashDBMImpl::HashDBMImpl(std::unique_ptr<File> file)
-    : open_(false), writable_(false), healthy_(false), auto_restored_(false), path_(),
-      cyclic_magic_(0), pkg_major_version_(0), pkg_minor_version_(0),
+    : open_(false), writable_(false), healthy_(false), auto_restored_(false), sync_hard_(false),
+      path_(), cyclic_magic_(0), pkg_major_version_(0), pkg_minor_version_(0),
       static_flags_(STATIC_FLAG_NONE), crc_width_(0),
       compressor_(nullptr), update_logger_(nullptr),
       offset_width_(HashDBM::DEFAULT_OFFSET_WIDTH), align_pow_(HashDBM::DEFAULT_ALIGN_POW),
@@ -273,6 +274,7 @@ Status HashDBMImpl::Open(const std::string& path, bool writable,
     return status;
   }
   path_ = norm_path;
+  sync_hard_ = options & File::OPEN_SYNC_HARD;
   status = OpenImpl(writable);
   if (status != Status::SUCCESS) {
     file_->Close();
@@ -1270,6 +1272,10 @@ Status HashDBMImpl::CloseImpl() {
     timestamp_ = GetWallTime() * 1000000;
     // The free blocks must be consistent whenever the metadata tells that the file is closed.
     status |= SaveFBP();
+    if (sync_hard_) {
+      // The records must be durable before the metadata tells that the file is closed.
+      status |= file_->Synchronize(true);
+    }
     status |= SaveMetadata(true);
   }
   open_ = false;
@@ -1832,7 +1838,8 @@ Status HashDBMImpl::RebuildImpl(
     CancelIterators();
     auto tmp_file = file_->MakeFile();
     file_->CopyProperties(tmp_file.get());
-    status = tmp_file->Open(tmp_path, true);
+    status = tmp_file->Open(
+        tmp_path, true, sync_hard_ ? File::OPEN_SYNC_HARD : File::OPEN_DEFAULT);
     if (status != Status::SUCCESS) {
       CleanUp();
       return status;
-- 
2.43.0


From 85ad9781ba3dc1e6d126b694a7a28d7c2913add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:18 +0000
Subject: [PATCH 52/67] fix: SkipDBM replaces the file with a file whose
 content is not yet durable in hard synchronization

---
 tkrzw_dbm_skip.cc | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index b48723d..6ac675a 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -120,7 +120,7 @@ class SkipDBMImpl final {
   Status CheckZeroRegion(int64_t offset, int64_t end_offset);
   Status PadFileForDirectIO();
   Status PrepareStorage();
-  Status FinishStorage(SkipDBM::ReducerType reducer);
+  Status FinishStorage(SkipDBM::ReducerType reducer, bool hard = false);
   Status DiscardStorage();
   Status UpdateRecord(std::string_view key, std::string_view new_value);
   Status WriteRecord(std::string_view key, std::string_view value, File* file);
@@ -130,6 +130,7 @@ class SkipDBMImpl final {
   bool writable_;
   bool healthy_;
   bool auto_restored_;
+  bool sync_hard_;
   bool updated_;
   bool removed_;
   std::string path_;
@@ -187,7 +188,7 @@ class SkipDBMIteratorImpl final {
 };
 
 SkipDBMImpl::SkipDBMImpl(std::unique_ptr<File> file)
-    : open_(false),  writable_(false), healthy_(false), auto_restored_(false),
+    : open_(false),  writable_(false), healthy_(false), auto_restored_(false), sync_hard_(false),
       updated_(false), removed_(false), path_(),
       cyclic_magic_(0), pkg_major_version_(0), pkg_minor_version_(0),
       offset_width_(SkipDBM::DEFAULT_OFFSET_WIDTH), step_unit_(SkipDBM::DEFAULT_STEP_UNIT),
@@ -338,6 +339,7 @@ Status SkipDBMImpl::Open(const std::string& path, bool writable,
     auto_restored_ = true;
   }
   path_ = norm_path;
+  sync_hard_ = options & File::OPEN_SYNC_HARD;
   if (writable && healthy) {
     status = SaveMetadata(file_.get(), false);
     if (status != Status::SUCCESS) {
@@ -817,7 +819,8 @@ Status SkipDBMImpl::Rebuild(
   CancelIterators();
   auto rebuild_file = file_->MakeFile();
   file_->CopyProperties(rebuild_file.get());
-  status = rebuild_file->Open(rebuild_path, true);
+  status = rebuild_file->Open(
+      rebuild_path, true, sync_hard_ ? File::OPEN_SYNC_HARD : File::OPEN_DEFAULT);
   if (status != Status::SUCCESS) {
     CleanUp();
     return status;
@@ -889,7 +892,7 @@ Status SkipDBMImpl::Synchronize(
   if (update_logger_ != nullptr) {
     status |= update_logger_->Synchronize(hard);
   }
-  status |= FinishStorage(reducer);
+  status |= FinishStorage(reducer, hard);
   status |= file_->Synchronize(hard);
   if (proc != nullptr) {
     proc->Process(path_);
@@ -1260,7 +1263,9 @@ Status SkipDBMImpl::PrepareStorage() {
   if (insert_in_order_) {
     const std::string sorted_path = path_ + SORTED_FILE_SUFFIX;
     sorted_file_ = file_->MakeFile();
-    Status status = sorted_file_->Open(sorted_path, true, File::OPEN_TRUNCATE);
+    Status status = sorted_file_->Open(
+        sorted_path, true,
+        File::OPEN_TRUNCATE | (sync_hard_ ? File::OPEN_SYNC_HARD : File::OPEN_DEFAULT));
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1277,7 +1282,7 @@ Status SkipDBMImpl::PrepareStorage() {
   return Status(Status::SUCCESS);
 }
 
-Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
+Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer, bool hard) {
   const std::string sorted_path = path_ + SORTED_FILE_SUFFIX;
   const std::string merged_path = path_ + MERGED_FILE_SUFFIX;
   Status status(Status::SUCCESS);
@@ -1287,6 +1292,13 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     file_size_ = sorted_file_->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(sorted_file_.get(), true);
+    if (hard || sync_hard_) {
+      // The new content must be durable before it replaces the old one.
+      status |= sorted_file_->Synchronize(true);
+    }
+    if (status != Status::SUCCESS) {
+      return status;
+    }
     file_->DisablePathOperations();
     if (IS_POSIX) {
       status |= sorted_file_->Rename(path_);
@@ -1315,7 +1327,9 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     }
     auto merged_file = file_->MakeFile();
     merged_file->CopyProperties(file_.get());
-    status = merged_file->Open(merged_path, true, File::OPEN_TRUNCATE);
+    status = merged_file->Open(
+        merged_path, true,
+        File::OPEN_TRUNCATE | (sync_hard_ ? File::OPEN_SYNC_HARD : File::OPEN_DEFAULT));
     if (status != Status::SUCCESS) {
       return status;
     }
@@ -1383,6 +1397,13 @@ Status SkipDBMImpl::FinishStorage(SkipDBM::ReducerType reducer) {
     file_size_ = merged_file->GetSizeSimple();
     timestamp_ = GetWallTime() * 1000000;
     status |= SaveMetadata(merged_file.get(), true);
+    if (hard || sync_hard_) {
+      // The new content must be durable before it replaces the old one.
+      status |= merged_file->Synchronize(true);
+    }
+    if (status != Status::SUCCESS) {
+      return status;
+    }
     file_->DisablePathOperations();
     if (IS_POSIX) {
       status |= merged_file->Rename(path_);
-- 
2.43.0


From 77a8244bfa6588d870eec2a714d1fd133a279efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 53/67] fix: BM search reads its shift table out of bounds and
 Z search fails with empty patterns and NUL bytes

---
 tkrzw_str_util.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index d0ecb00..9a44595 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -945,8 +945,8 @@ int32_t StrSearchBM(std::string_view text, std::string_view pattern) {
   if (pattern.empty()) {
     return 0;
   }
-  int32_t table[UINT8MAX];
-  for (int32_t table_index = 0; table_index < UINT8MAX; table_index++) {
+  int32_t table[UINT8MAX + 1];
+  for (int32_t table_index = 0; table_index <= UINT8MAX; table_index++) {
     table[table_index] = pattern.size();
   }
   int32_t shift = pattern.size();
@@ -1011,6 +1011,9 @@ int32_t StrSearchRK(std::string_view text, std::string_view pattern) {
 }
 
 int32_t StrSearchZ(std::string_view text, std::string_view pattern) {
+  if (pattern.empty()) {
+    return 0;
+  }
   std::string concat;
   concat.reserve(pattern.size() + 1 + text.size());
   concat.append(pattern);
@@ -1043,7 +1046,7 @@ int32_t StrSearchZ(std::string_view text, std::string_view pattern) {
     }
   }
   for (size_t i = pattern.size() + 1; i < concat.size(); i++) {
-    if (z[i] == pattern.size()) {
+    if (z[i] >= pattern.size()) {
       return i - 1 - pattern.size();
     }
   }
@@ -1133,8 +1136,8 @@ std::vector<int32_t> StrSearchWholeBM(
     }
     return result;
   }
-  int32_t table[UINT8MAX];
-  for (int32_t table_index = 0; table_index < UINT8MAX; table_index++) {
+  int32_t table[UINT8MAX + 1];
+  for (int32_t table_index = 0; table_index <= UINT8MAX; table_index++) {
     table[table_index] = pattern.size();
   }
   int32_t shift = pattern.size();
-- 
2.43.0


From c54c4ba6fbb1838ae2ff801d41c359acf56cfab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 54/67] fix: number parsing crashes with empty views of null
 pointers

---
 tkrzw_str_util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 9a44595..7c5e68b 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -224,7 +224,7 @@ uint64_t StrToIntHex(std::string_view str, uint64_t defval) {
   while (rp < ep && *rp <= ' ') {
     rp++;
   }
-  if (rp < ep - 1 && rp[0] == '0' && (rp[1] == 'x' || rp[1] == 'X')) {
+  if (ep - rp > 1 && rp[0] == '0' && (rp[1] == 'x' || rp[1] == 'X')) {
     rp += 2;
   }
   bool has_number = false;
@@ -263,12 +263,12 @@ double StrToDouble(std::string_view str, double defval) {
       rp++;
     }
   }
-  if (rp < ep - 2 &&
+  if (ep - rp > 2 &&
       (rp[0] == 'i' || rp[0] == 'I') && (rp[1] == 'n' || rp[1] == 'N') &&
       (rp[2] == 'f' || rp[2] == 'F')) {
     return HUGE_VAL * sign;
   }
-  if (rp < ep - 2 &&
+  if (ep - rp > 2 &&
       (rp[0] == 'n' || rp[0] == 'N') && (rp[1] == 'a' || rp[1] == 'A') &&
       (rp[2] == 'n' || rp[2] == 'N')) {
     return DOUBLENAN;
-- 
2.43.0


From da2b26123392826f0eddcad938fda25663c2cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 55/67] fix: deserializing damaged data reads out of bounds

---
 tkrzw_str_util.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 7c5e68b..77dd3c4 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -2083,6 +2083,7 @@ void DeserializeStrPair(
   size_t step = ReadVarNum(rp, size, &first_size);
   rp += step;
   size -= step;
+  first_size = std::min<uint64_t>(first_size, size);
   *first = std::string_view(rp, first_size);
   rp += first_size;
   size -= first_size;
@@ -2094,7 +2095,8 @@ void DeserializeStrPair(
 
 std::string_view GetFirstFromSerializedStrPair(std::string_view serialized) {
   uint64_t first_size = 0;
-  size_t step = ReadVarNum(serialized.data(), serialized.size(), &first_size);
+  const size_t step = ReadVarNum(serialized.data(), serialized.size(), &first_size);
+  first_size = std::min<uint64_t>(first_size, serialized.size() - step);
   return std::string_view(serialized.data() + step, first_size);
 }
 
@@ -2122,7 +2124,7 @@ std::vector<std::string> DeserializeStrVector(std::string_view serialized) {
     const size_t step = ReadVarNum(rp, size, &value_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(value_size)) {
+    if (step < 1 || value_size > static_cast<uint64_t>(size)) {
       break;
     }
     values.emplace_back(std::string(rp, value_size));
@@ -2179,7 +2181,7 @@ std::map<std::string, std::string> DeserializeStrMap(std::string_view serialized
     size_t step = ReadVarNum(rp, size, &key_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(key_size)) {
+    if (step < 1 || key_size > static_cast<uint64_t>(size)) {
       break;
     }
     const char* key_ptr = rp;
@@ -2189,7 +2191,7 @@ std::map<std::string, std::string> DeserializeStrMap(std::string_view serialized
     step = ReadVarNum(rp, size, &value_size);
     rp += step;
     size -= step;
-    if (size < static_cast<int64_t>(value_size)) {
+    if (step < 1 || value_size > static_cast<uint64_t>(size)) {
       break;
     }
     const char* value_ptr = rp;
-- 
2.43.0


From 7823f9b889e7567bd38b41c89e0162ef65a230e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 56/67] fix: formatting with large widths and large real
 numbers overruns the buffers

---
 tkrzw_str_util.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tkrzw_str_util.cc b/tkrzw_str_util.cc
index 77dd3c4..8d0b2cb 100644
--- a/tkrzw_str_util.cc
+++ b/tkrzw_str_util.cc
@@ -361,7 +361,7 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
       int32_t lnum = 0;
       format++;
       while (std::strchr("0123456789 .+-hlLz", *format) && *format != '\0' &&
-             cbsiz < NUM_BUFFER_SIZE - 1) {
+             cbsiz < NUM_BUFFER_SIZE - 2) {
         if (*format == 'l' || *format == 'L') lnum++;
         cbuf[cbsiz++] = *(format++);
       }
@@ -375,8 +375,14 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
               dest->append(tmp);
             } else {
               char tbuf[NUM_BUFFER_SIZE * 2];
-              size_t tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, tmp);
-              dest->append(tbuf, tsiz);
+              const size_t tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, tmp);
+              if (tsiz < sizeof(tbuf)) {
+                dest->append(tbuf, tsiz);
+              } else {
+                std::vector<char> lbuf(tsiz + 1);
+                std::snprintf(lbuf.data(), lbuf.size(), cbuf, tmp);
+                dest->append(lbuf.data(), tsiz);
+              }
             }
           } else {
             dest->append("(null)");
@@ -393,7 +399,7 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
           } else {
             tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, int));
           }
-          dest->append(tbuf, tsiz);
+          dest->append(tbuf, std::min(tsiz, sizeof(tbuf) - 1));
           break;
         }
         case 'o': case 'u': case 'x': case 'X': case 'c': {
@@ -406,7 +412,7 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
           } else {
             tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, unsigned int));
           }
-          dest->append(tbuf, tsiz);
+          dest->append(tbuf, std::min(tsiz, sizeof(tbuf) - 1));
           break;
         }
         case 'e': case 'E': case 'f': case 'g': case 'G': {
@@ -417,7 +423,7 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
           } else {
             tsiz = std::snprintf(tbuf, sizeof(tbuf), cbuf, va_arg(ap, double));
           }
-          if (tsiz > sizeof(tbuf)) {
+          if (tsiz >= sizeof(tbuf)) {
             tbuf[sizeof(tbuf)-1] = '*';
             tsiz = sizeof(tbuf);
           }
@@ -443,7 +449,8 @@ void VSPrintF(std::string* dest, const char* format, va_list ap) {
 }
 
 std::string ToString(double data) {
-  char buf[NUM_BUFFER_SIZE];
+  // The sign, the digits of the largest value, the point, six digits, and the terminator.
+  char buf[std::numeric_limits<double>::max_exponent10 + 16];
   int32_t size = std::snprintf(buf, sizeof(buf), "%.6f", data);
   while (size > 0 && buf[size - 1] == '0') {
     buf[size--] = '\0';
@@ -2090,6 +2097,8 @@ void DeserializeStrPair(
   uint64_t second_size = 0;
   step = ReadVarNum(rp, size, &second_size);
   rp += step;
+  size -= step;
+  second_size = std::min<uint64_t>(second_size, size);
   *second = std::string_view(rp, second_size);
 }
 
-- 
2.43.0


From 8648060d187164011ea0d10b97046bbf5bcad430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 57/67] fix: StrJoin loses delimiters after leading empty
 elements

---
 tkrzw_str_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index 12411a3..75c32a1 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -247,10 +247,12 @@ std::string IntToStrDelta(uint64_t data, bool zigzag);
 template <typename T>
 std::string StrJoin(const T& elems, std::string_view delim) {
   std::string str;
+  bool first = true;
   for (const auto& elem : elems) {
-    if (!str.empty()) {
+    if (!first) {
       str += delim;
     }
+    first = false;
     str += ToString(elem);
   }
   return str;
-- 
2.43.0


From b14ba640776fcff3e2f383ffd071786513c74bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 58/67] fix: delta vectors break values whose zigzag form
 overflows the type

---
 tkrzw_str_util.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tkrzw_str_util.h b/tkrzw_str_util.h
index 75c32a1..80468af 100644
--- a/tkrzw_str_util.h
+++ b/tkrzw_str_util.h
@@ -979,11 +979,8 @@ inline std::string SerializeIntVectorDelta(const std::vector<T>& values, bool zi
   for (const T value : values) {
     uint64_t num = 0;
     if (zigzag) {
-      if (static_cast<uint64_t>(value) > INT64MAX) {
-        num = static_cast<uint64_t>((value + 1) * -2) + 1;
-      } else {
-        num = value * 2;
-      }
+      num = static_cast<uint64_t>(value);
+      num = num > INT64MAX ? ~num * 2 + 1 : num * 2;
     } else {
       num = static_cast<uint64_t>(value);
     }
@@ -1084,7 +1081,7 @@ inline std::vector<T> DeserializeIntVectorDelta(std::string_view serialized, boo
     } while (c >= 0x80);
     if (zigzag) {
       if (num & 0x1) {
-        values.push_back(static_cast<T>((num - 1) / 2) * -1 - 1);
+        values.push_back(static_cast<T>(~(num / 2)));
       } else {
         values.push_back(static_cast<T>(num / 2));
       }
-- 
2.43.0


From cc50da6288ed71fc805cef8e1e3c5f3b711308c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 59/67] fix: FlatRecord reads records whose size is beyond the
 end of the file

---
 tkrzw_file_util.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tkrzw_file_util.cc b/tkrzw_file_util.cc
index b55310e..adbf6f7 100644
--- a/tkrzw_file_util.cc
+++ b/tkrzw_file_util.cc
@@ -1239,12 +1239,12 @@ Status FlatRecord::Read(int64_t offset) {
     return Status(Status::BROKEN_DATA_ERROR, "invalid record size");
   }
   data_size_ = num;
-  if (static_cast<int64_t>(data_size_) > max_read_size) {
-    return Status(Status::BROKEN_DATA_ERROR, "too large record size");
-  }
   rp += step;
   record_size -= step;
   const size_t header_size = rp - buffer_;
+  if (data_size_ > static_cast<size_t>(max_read_size) - header_size) {
+    return Status(Status::BROKEN_DATA_ERROR, "too large record size");
+  }
   whole_size_ = header_size + data_size_;
   data_ptr_ = nullptr;
   if (record_size >= static_cast<int64_t>(data_size_)) {
@@ -1411,6 +1411,9 @@ Status FlatRecordReader::Read(std::string_view* str, FlatRecord::RecordType* rec
     offset_ += sizeof(uint8_t) + step + value_size;
     return Status(Status::SUCCESS);
   }
+  if (value_size > static_cast<uint64_t>(file_size - offset_) - sizeof(uint8_t) - step) {
+    return Status(Status::BROKEN_DATA_ERROR, "too large record size");
+  }
   data_size_ = 0;
   index_ = 0;
   delete[] buffer_;
-- 
2.43.0


From 990f9378a0fad7886d995785dbaaca1c71ca0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 60/67] fix: RealNumberKeyComparator is not an order with NaN

---
 tkrzw_key_comparators.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tkrzw_key_comparators.h b/tkrzw_key_comparators.h
index 2dbc680..d20b7cd 100644
--- a/tkrzw_key_comparators.h
+++ b/tkrzw_key_comparators.h
@@ -87,6 +87,8 @@ inline int32_t HexadecimalKeyComparator(std::string_view a, std::string_view b)
 inline int32_t RealNumberKeyComparator(std::string_view a, std::string_view b) {
   const double a_num = StrToDouble(a);
   const double b_num = StrToDouble(b);
+  if (std::isnan(a_num)) return std::isnan(b_num) ? 0 : -1;
+  if (std::isnan(b_num)) return 1;
   return a_num < b_num ? -1 : (a_num > b_num ? 1 : 0);
 }
 
-- 
2.43.0


From eaf9ca9a390d5ac247ef08bd399f8f05902f0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 61/67] fix: compressors return freed buffers on failure and
 expand damaged data up to the limit

---
 tkrzw_compress.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tkrzw_compress.cc b/tkrzw_compress.cc
index 016f5c7..d2b92f1 100644
--- a/tkrzw_compress.cc
+++ b/tkrzw_compress.cc
@@ -28,6 +28,7 @@ extern "C" {
 #if _TKRZW_COMP_ZSTD
 extern "C" {
 #include <zstd.h>
+#include <zstd_errors.h>
 }
 #endif
 
@@ -197,7 +198,7 @@ char* ZLibCompressor::Decompress(const void* buf, size_t size, size_t* sp) const
       *sp = zsiz;
       return zbuf;
     } else if (rv == Z_BUF_ERROR) {
-      if (zsiz >= INT32MAX / 2) {
+      if (zs.avail_out > 0 || zsiz >= INT32MAX / 2) {
         break;
       }
       zsiz *= 2;
@@ -239,7 +240,7 @@ char* ZStdCompressor::Compress(const void* buf, size_t size, size_t* sp) const {
   const size_t rsiz = ZSTD_compress(zbuf, zsiz, static_cast<const char*>(buf), size, level_);
   if (ZSTD_isError(rsiz)) {
     xfree(zbuf);
-    return zbuf;
+    return nullptr;
   }
   *sp = rsiz;
   return zbuf;
@@ -258,7 +259,7 @@ char* ZStdCompressor::Decompress(const void* buf, size_t size, size_t* sp) const
       *sp = rsiz;
       return zbuf;
     }
-    if (zsiz >= INT32MAX / 2) {
+    if (ZSTD_getErrorCode(rsiz) != ZSTD_error_dstSize_tooSmall || zsiz >= INT32MAX / 2) {
       break;
     }
     zsiz *= 2;
@@ -298,7 +299,7 @@ char* LZ4Compressor::Compress(const void* buf, size_t size, size_t* sp) const {
       LZ4_compress_fast(static_cast<const char*>(buf), zbuf, size, zsiz, acceleration_);
   if (rsiz < 1) {
     xfree(zbuf);
-    return zbuf;
+    return nullptr;
   }
   *sp = rsiz;
   return zbuf;
@@ -422,7 +423,7 @@ char* LZMACompressor::Decompress(const void* buf, size_t size, size_t* sp) const
       *sp = zsiz;
       return zbuf;
     } else if (rv == LZMA_OK) {
-      if (zsiz >= INT32MAX / 2) {
+      if (zs.avail_out > 0 || zsiz >= INT32MAX / 2) {
         break;
       }
       zsiz *= 2;
-- 
2.43.0


From 60aab2272efe87c9bb78e91bdf252a9a9deec543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:44 +0000
Subject: [PATCH 62/67] fix: iterators update databases that are not writable

---
 tkrzw_dbm_hash.cc | 11 +++++++++++
 tkrzw_dbm_skip.cc | 12 ++++++++++++
 tkrzw_dbm_tree.cc | 11 +++++++++++
 3 files changed, 34 insertions(+)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 35b2dd8..e1d9afa 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -2399,6 +2399,17 @@ Status HashDBMIteratorImpl::Next() {
 
 Status HashDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (!dbm_->open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
+  if (writable) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   const Status status = ReadKeys();
   if (status != Status::SUCCESS) {
     return status;
diff --git a/tkrzw_dbm_skip.cc b/tkrzw_dbm_skip.cc
index 6ac675a..4a9bfef 100644
--- a/tkrzw_dbm_skip.cc
+++ b/tkrzw_dbm_skip.cc
@@ -1720,6 +1720,15 @@ Status SkipDBMIteratorImpl::Previous() {
 Status SkipDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
   if (writable) {
     std::lock_guard<SpinSharedMutex> lock(dbm_->mutex_);
+    if (!dbm_->open_) {
+      return Status(Status::PRECONDITION_ERROR, "not opened database");
+    }
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
     if (record_offset_ < 0 || record_offset_ >= dbm_->file_->GetSizeSimple()) {
       return Status(Status::NOT_FOUND_ERROR);
     }
@@ -1750,6 +1759,9 @@ Status SkipDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
     }
   } else {
     std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+    if (!dbm_->open_) {
+      return Status(Status::PRECONDITION_ERROR, "not opened database");
+    }
     if (record_offset_ < 0 || record_offset_ >= dbm_->file_->GetSizeSimple()) {
       return Status(Status::NOT_FOUND_ERROR);
     }
diff --git a/tkrzw_dbm_tree.cc b/tkrzw_dbm_tree.cc
index cdf6539..210bec4 100644
--- a/tkrzw_dbm_tree.cc
+++ b/tkrzw_dbm_tree.cc
@@ -2328,6 +2328,17 @@ Status TreeDBMIteratorImpl::Process(DBM::RecordProcessor* proc, bool writable) {
     }
   }
   std::shared_lock<SpinSharedMutex> lock(dbm_->mutex_);
+  if (!dbm_->open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
+  if (writable) {
+    if (!dbm_->writable_) {
+      return Status(Status::PRECONDITION_ERROR, "not writable database");
+    }
+    if (!dbm_->healthy_) {
+      return Status(Status::PRECONDITION_ERROR, "not healthy database");
+    }
+  }
   if (key_ptr_ == nullptr) {
     return Status(Status::NOT_FOUND_ERROR);
   }
-- 
2.43.0


From c863a6910546998dfef8806a0519f6c6430122ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:44 +0000
Subject: [PATCH 63/67] fix: PolyDBM and ShardDBM that are not opened crash in
 multi-record operations and iterators

---
 tkrzw_dbm_poly.cc  | 3 +++
 tkrzw_dbm_shard.cc | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/tkrzw_dbm_poly.cc b/tkrzw_dbm_poly.cc
index d986299..71bef90 100644
--- a/tkrzw_dbm_poly.cc
+++ b/tkrzw_dbm_poly.cc
@@ -633,6 +633,9 @@ Status PolyDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
 Status PolyDBM::ProcessMulti(
     const std::vector<std::pair<std::string_view, RecordProcessor*>>& key_proc_pairs,
     bool writable) {
+  if (dbm_ == nullptr) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   return dbm_->ProcessMulti(key_proc_pairs, writable);
 }
 
diff --git a/tkrzw_dbm_shard.cc b/tkrzw_dbm_shard.cc
index 628863c..a20022c 100644
--- a/tkrzw_dbm_shard.cc
+++ b/tkrzw_dbm_shard.cc
@@ -198,6 +198,9 @@ Status ShardDBM::Append(std::string_view key, std::string_view value, std::strin
 }
 
 Status ShardDBM::ProcessFirst(RecordProcessor* proc, bool writable) {
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   assert(proc != nullptr);
   std::unique_ptr<ShardDBM::Iterator> iter(new Iterator(&dbms_));
   Status status = iter->First();
@@ -254,6 +257,9 @@ Status ShardDBM::ProcessMulti(
 Status ShardDBM::CompareExchangeMulti(
     const std::vector<std::pair<std::string_view, std::string_view>>& expected,
     const std::vector<std::pair<std::string_view, std::string_view>>& desired) {
+  if (!open_) {
+    return Status(Status::PRECONDITION_ERROR, "not opened database");
+  }
   typedef std::pair<std::string_view, std::string_view> Condition;
   typedef std::pair<std::vector<Condition>, std::vector<Condition>> ConditionListPair;
   std::map<int32_t, ConditionListPair> shard_conditions;
@@ -593,6 +599,9 @@ bool ShardDBM::IsOrdered() const {
 }
 
 std::unique_ptr<DBM::Iterator> ShardDBM::MakeIterator() {
+  if (!open_) {
+    return PolyDBM().MakeIterator();
+  }
   std::unique_ptr<ShardDBM::Iterator> iter(new Iterator(&dbms_));
   return iter;
 }
-- 
2.43.0


From 9678bd9087af57f080f03c3f119ae80fc84de0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:30 +0000
Subject: [PATCH 64/67] fix: a failed ftruncate in the mmap files' Truncate
 left the mapping and the file of different sizes

---
 tkrzw_file_mmap.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tkrzw_file_mmap.cc b/tkrzw_file_mmap.cc
index 1c1724b..9aa4983 100644
--- a/tkrzw_file_mmap.cc
+++ b/tkrzw_file_mmap.cc
@@ -250,9 +250,13 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   int64_t new_map_size =
       std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
   new_map_size = AlignNumber(new_map_size, PAGE_SIZE);
+  Status status = TruncateFile(fd_, new_map_size);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   void* new_map = tkrzw_mremap(map_, map_size_.load(), new_map_size, fd_);
   if (new_map == MAP_FAILED) {
-    const Status status = GetErrnoStatus("mremap", errno);
+    status = GetErrnoStatus("mremap", errno);
     map_ = nullptr;
     close(fd_);
     fd_ = -1;
@@ -261,10 +265,6 @@ Status MemoryMapParallelFileImpl::Truncate(int64_t size) {
   AdviseMemoryRandomAccessPattern(new_map, new_map_size);
   map_ = static_cast<char*>(new_map);
   map_size_.store(new_map_size);
-  const Status status = TruncateFile(fd_, new_map_size);
-  if (status != Status::SUCCESS) {
-    return status;
-  }
   file_size_.store(size);
   return Status(Status::SUCCESS);
 }
@@ -819,9 +819,13 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   int64_t new_map_size =
       std::max(std::max(size, static_cast<int64_t>(PAGE_SIZE)), alloc_init_size_);
   new_map_size = AlignNumber(new_map_size, PAGE_SIZE);
+  Status status = TruncateFile(fd_, new_map_size);
+  if (status != Status::SUCCESS) {
+    return status;
+  }
   void* new_map = tkrzw_mremap(map_, map_size_, new_map_size, fd_);
   if (new_map == MAP_FAILED) {
-    const Status status = GetErrnoStatus("mremap", errno);
+    status = GetErrnoStatus("mremap", errno);
     map_ = nullptr;
     close(fd_);
     fd_ = -1;
@@ -829,10 +833,6 @@ Status MemoryMapAtomicFileImpl::Truncate(int64_t size) {
   }
   map_ = static_cast<char*>(new_map);
   map_size_ = new_map_size;
-  const Status status = TruncateFile(fd_, new_map_size);
-  if (status != Status::SUCCESS) {
-    return status;
-  }
   file_size_ = size;
   return Status(Status::SUCCESS);
 }
-- 
2.43.0


From 17a4005259c016e564709069df22c93382ee64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:47 +0000
Subject: [PATCH 65/67] fix: rebuilding an encrypted hash database with a new
 key read the old records with the new key

---
 tkrzw_dbm_hash.cc | 12 +++++++++---
 tkrzw_dbm_hash.h  |  1 +
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index e1d9afa..853f479 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -207,6 +207,7 @@ class HashDBMImpl final {
   int32_t min_read_size_;
   bool cache_buckets_;
   std::string cipher_key_;
+  std::string import_cipher_key_;
   std::unique_ptr<File> file_;
   SpinSharedMutex mutex_;
   HashMutex<SpinSharedMutex> record_mutex_;
@@ -243,7 +244,7 @@ HashDBMImpl::HashDBMImpl(std::unique_ptr<File> file)
       db_type_(0), opaque_(),
       record_base_(0), iterators_(),
       fbp_(HashDBM::DEFAULT_FBP_CAPACITY), min_read_size_(0),
-      cache_buckets_(false), cipher_key_(),
+      cache_buckets_(false), cipher_key_(), import_cipher_key_(),
       file_(std::move(file)),
       mutex_(), record_mutex_(RECORD_MUTEX_NUM_SLOTS, 1, PrimaryHash),
       rebuild_mutex_() {}
@@ -694,6 +695,7 @@ Status HashDBMImpl::Clear() {
   min_read_size_ = min_read_size;
   cache_buckets_ = cache_buckets;
   cipher_key_ = cipher_key;
+  import_cipher_key_ = cipher_key;
   db_type_ = db_type;
   opaque_ = opaque;
   status |= OpenImpl(true);
@@ -1181,6 +1183,7 @@ void HashDBMImpl::SetTuning(const HashDBM::TuningParameters& tuning_params) {
   }
   cache_buckets_ = tuning_params.cache_buckets > 0;
   cipher_key_ = tuning_params.cipher_key;
+  import_cipher_key_ = cipher_key_;
 }
 
 Status HashDBMImpl::OpenImpl(bool writable) {
@@ -1300,6 +1303,7 @@ Status HashDBMImpl::CloseImpl() {
   min_read_size_ = 0;
   cache_buckets_ = false;
   cipher_key_.clear();
+  import_cipher_key_.clear();
   return status;
 }
 
@@ -1762,6 +1766,7 @@ Status HashDBMImpl::RebuildImpl(
     CleanUp();
     return status;
   }
+  tmp_dbm.impl_->import_cipher_key_ = cipher_key_;
   int64_t end_offset = INT64MAX;
   {
     ScopedHashLock record_lock(record_mutex_, true);
@@ -1882,6 +1887,7 @@ Status HashDBMImpl::RebuildImpl(
     }
     if (!tuning_params.cipher_key.empty()) {
       cipher_key_ = tuning_params.cipher_key;
+      import_cipher_key_ = cipher_key_;
     }
     status |= OpenImpl(true);
     db_type_ = db_type;
@@ -1959,7 +1965,7 @@ Status HashDBMImpl::ImportFromFileForwardImpl(
     record_base = tmp_record_base;
   }
   const int32_t crc_width = HashDBM::GetCRCWidthFromStaticFlags(static_flags);
-  auto compressor = HashDBM::MakeCompressorFromStaticFlags(static_flags, cipher_key_);
+  auto compressor = HashDBM::MakeCompressorFromStaticFlags(static_flags, import_cipher_key_);
   if (end_offset == 0) {
     if (last_sync_size < record_base || last_sync_size % (1 << align_pow) != 0) {
       end_offset = -1;
@@ -2012,7 +2018,7 @@ Status HashDBMImpl::ImportFromFileBackwardImpl(
     record_base = tmp_record_base;
   }
   const int32_t crc_width = HashDBM::GetCRCWidthFromStaticFlags(static_flags);
-  auto compressor = HashDBM::MakeCompressorFromStaticFlags(static_flags, cipher_key_);
+  auto compressor = HashDBM::MakeCompressorFromStaticFlags(static_flags, import_cipher_key_);
   if (end_offset == 0) {
     if (last_sync_size < record_base || last_sync_size % (1 << align_pow) != 0) {
       end_offset = -1;
diff --git a/tkrzw_dbm_hash.h b/tkrzw_dbm_hash.h
index 4bf0d18..332bcde 100644
--- a/tkrzw_dbm_hash.h
+++ b/tkrzw_dbm_hash.h
@@ -857,6 +857,7 @@ class HashDBM final : public DBM {
       int64_t end_offset, std::string_view cipher_key = "");
 
  private:
+  friend class HashDBMImpl;
   /** Pointer to the actual implementation. */
   HashDBMImpl* impl_;
 };
-- 
2.43.0


From eead03ee49cf4670dcc9d1cecb4b662a9296c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:10 +0000
Subject: [PATCH 66/67] fix: errors of storing imported records of hash
 databases were ignored

---
 tkrzw_dbm_hash.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index 853f479..b2f42b3 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -1980,24 +1980,28 @@ Status HashDBMImpl::ImportFromFileForwardImpl(
     std::string_view ProcessFull(std::string_view key, std::string_view value) override {
       Status set_status(Status::SUCCESS);
       DBM::RecordProcessorSet setter(&set_status, value, true, nullptr);
-      *status_ = impl_->Process(key, &setter, false, true);
+      *status_ |= impl_->Process(key, &setter, false, true);
       *status_ |= set_status;
       return NOOP;
     }
     std::string_view ProcessEmpty(std::string_view key) override {
       Status remove_status(Status::SUCCESS);
       DBM::RecordProcessorRemove remover(&remove_status, nullptr);
-      *status_ = impl_->Process(key, &remover, false, true);
-      *status_ |= remove_status;
+      *status_ |= impl_->Process(key, &remover, false, true);
+      if (remove_status != Status::NOT_FOUND_ERROR) {
+        *status_ |= remove_status;
+      }
       return NOOP;
     }
    private:
     HashDBMImpl* impl_;
     Status* status_;
   } importer(this, &import_status);
-  return HashRecord::ReplayOperations(
+  status = HashRecord::ReplayOperations(
       file, &importer, record_base, crc_width, compressor.get(),
       offset_width, align_pow, min_read_size_, skip_broken_records, end_offset);
+  status |= import_status;
+  return status;
 }
 
 Status HashDBMImpl::ImportFromFileBackwardImpl(
-- 
2.43.0


From 671a5c240bccf260aa34f41d40f1100715805fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:17 +0000
Subject: [PATCH 67/67] fix: a hash database whose update failed in the middle
 was closed as if it were consistent

---
 tkrzw_dbm_hash.cc | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/tkrzw_dbm_hash.cc b/tkrzw_dbm_hash.cc
index b2f42b3..4f1b65e 100644
--- a/tkrzw_dbm_hash.cc
+++ b/tkrzw_dbm_hash.cc
@@ -162,6 +162,9 @@ class HashDBMImpl final {
   Status ProcessImpl(
       std::string_view key, int64_t bucket_index, DBM::RecordProcessor* proc,
       bool readable, bool writable);
+  Status ProcessRecord(
+      std::string_view key, int64_t bucket_index, DBM::RecordProcessor* proc,
+      bool readable, bool writable);
   Status GetBucketValue(int64_t bucket_index, int64_t* value);
   Status SetBucketValue(int64_t bucket_index, int64_t value);
   Status RebuildImpl(
@@ -181,6 +184,7 @@ class HashDBMImpl final {
   bool open_;
   bool writable_;
   bool healthy_;
+  std::atomic_bool torn_;
   bool auto_restored_;
   bool sync_hard_;
   std::string path_;
@@ -233,7 +237,8 @@ class HashDBMIteratorImpl final {
 };
 
 HashDBMImpl::HashDBMImpl(std::unique_ptr<File> file)
-    : open_(false), writable_(false), healthy_(false), auto_restored_(false), sync_hard_(false),
+    : open_(false), writable_(false), healthy_(false), torn_(false),
+      auto_restored_(false), sync_hard_(false),
       path_(), cyclic_magic_(0), pkg_major_version_(0), pkg_minor_version_(0),
       static_flags_(STATIC_FLAG_NONE), crc_width_(0),
       compressor_(nullptr), update_logger_(nullptr),
@@ -756,7 +761,9 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (!healthy_) {
     return Status(Status::PRECONDITION_ERROR, "not healthy database");
   }
-  file_size_ = file_->GetSizeSimple();
+  if (!torn_.load()) {
+    file_size_ = file_->GetSizeSimple();
+  }
   timestamp_ = GetWallTime() * 1000000;
   Status status(Status::SUCCESS);
   if (update_logger_ != nullptr) {
@@ -765,7 +772,9 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE) {
     status |= SaveFBP();
   }
-  if (hard) {
+  if (torn_.load()) {
+    status |= file_->Synchronize(hard);
+  } else if (hard) {
     status |= file_->Synchronize(true);
     status |= SaveMetadata(true);
     status |= file_->Synchronize(true, 0, METADATA_SIZE);
@@ -776,7 +785,9 @@ Status HashDBMImpl::Synchronize(bool hard, DBM::FileProcessor* proc) {
   if (proc != nullptr) {
     proc->Process(path_);
   }
-  status |= SaveUnclosedMetadata();
+  if (!torn_.load()) {
+    status |= SaveUnclosedMetadata();
+  }
   return status;
 }
 
@@ -1279,11 +1290,15 @@ Status HashDBMImpl::CloseImpl() {
       // The records must be durable before the metadata tells that the file is closed.
       status |= file_->Synchronize(true);
     }
-    status |= SaveMetadata(true);
+    // If a write failed, the file is left as unclosed so that it is restored when it is opened.
+    if (status == Status::SUCCESS && !torn_.load()) {
+      status |= SaveMetadata(true);
+    }
   }
   open_ = false;
   writable_ = false;
   healthy_ = false;
+  torn_.store(false);
   cyclic_magic_ = 0;
   pkg_major_version_ = 0;
   pkg_minor_version_ = 0;
@@ -1476,6 +1491,17 @@ Status HashDBMImpl::LoadFBP() {
 Status HashDBMImpl::ProcessImpl(
     std::string_view key, int64_t bucket_index, DBM::RecordProcessor* proc,
     bool readable, bool writable) {
+  const Status status = ProcessRecord(key, bucket_index, proc, readable, writable);
+  if (writable && status == Status::SYSTEM_ERROR) {
+    // The update can be done by halves so the database must not be regarded as closed properly.
+    torn_.store(true);
+  }
+  return status;
+}
+
+Status HashDBMImpl::ProcessRecord(
+    std::string_view key, int64_t bucket_index, DBM::RecordProcessor* proc,
+    bool readable, bool writable) {
   const bool in_place = static_flags_ & STATIC_FLAG_UPDATE_IN_PLACE;
   int64_t top = 0;
   Status status = GetBucketValue(bucket_index, &top);
-- 
2.43.0

