From d357921a6946ebd4a4fc6c3a9d6469cc02ee4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 01/40] fix: parallel bulk add to an empty string dictionary
 crashed

The first string of the batch (index 0) was looked up in the still empty storage
when another string of the batch fell into its bucket.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index ccc267b..1650199 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1246,8 +1246,7 @@ uint32_t StringDictionary::computeBucketFromStorageAndMemory(
     }
     auto candidate_string_index = idToIndex(candidate_string_id);
     if (!materialize_hashes_ || (input_string_hash == hashById(candidate_string_id))) {
-      if (candidate_string_index > 0 &&
-          static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
+      if (static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
         // The candidate string is not in storage yet but in our string_memory_ids temp
         // buffer
         size_t memory_offset =
-- 
2.43.0


From e17e5bb9be7c09eeebe66002d572bef14764518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 02/40] fix: bulk operations of a nested string dictionary with
 8/16-bit ids

A string missing in the base dictionary was taken for a found one, because the
unsigned id was compared with a negative marker. Empty strings are null (found)
in bulk lookups of an empty dictionary too.
---
 .../StringDictionary/StringDictionary.cpp      | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 1650199..486e000 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -359,6 +359,12 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
     // Need to fill the resulting vector if it wasn't done by the base dictionary.
     if (!base_dict_) {
       fillInvalidStringIdsParallel(0, num_lookup_strings, encoded_vec);
+      for (int64_t string_idx = 0; string_idx < num_lookup_strings; ++string_idx) {
+        if (string_vec[string_idx].empty()) {
+          encoded_vec[string_idx] = inline_int_null_value<T>();
+          --base_num_strings_not_found;
+        }
+      }
     }
     return base_num_strings_not_found;
   }
@@ -372,10 +378,13 @@ size_t StringDictionary::getBulk(const std::vector<String>& string_vec,
         const int64_t start_idx = r.begin();
         const int64_t end_idx = r.end();
         for (int64_t string_idx = start_idx; string_idx != end_idx; ++string_idx) {
-          if (base_dict_ && encoded_vec[string_idx] != StringDictionary::INVALID_STR_ID) {
+          const auto& input_string = string_vec[string_idx];
+          // Skip strings already processed by the base dictionary.
+          if (base_dict_ &&
+              (input_string.empty() ||
+               encoded_vec[string_idx] != static_cast<T>(INVALID_STR_ID))) {
             continue;
           }
-          const auto& input_string = string_vec[string_idx];
           if (input_string.empty()) {
             encoded_vec[string_idx] = inline_int_null_value<T>();
             ++found;
@@ -433,7 +442,7 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
   size_t idx = 0;
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
-    if (base_dict_ && output_string_ids[idx] != INVALID_STR_ID) {
+    if (base_dict_ && output_string_ids[idx] != static_cast<T>(INVALID_STR_ID)) {
       ++idx;
       continue;
     }
@@ -499,7 +508,8 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   size_t input_string_idx{0};
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
-    if (base_dict_ && output_string_ids[input_string_idx] != INVALID_STR_ID) {
+    if (base_dict_ &&
+        output_string_ids[input_string_idx] != static_cast<T>(INVALID_STR_ID)) {
       ++input_string_idx;
       continue;
     }
-- 
2.43.0


From c5816c00cf1385e39478b14693d62aa8997b3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 03/40] fix: string dictionary state after a bulk add that
 exceeds the id width

The parallel version left ids in the hash table for strings it never stored, the
serial one kept stale comparison caches, and neither counted the strings of the
base dictionary.
---
 .../StringDictionary/StringDictionary.cpp     | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 486e000..3a00c74 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -462,7 +462,10 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     }
     // need to add record to dictionary
     // check there is room
-    if (str_count_ > static_cast<size_t>(max_valid_int_value<T>())) {
+    if (base_generation_ + str_count_ > static_cast<size_t>(max_valid_int_value<T>())) {
+      if (str_count_ > initial_str_count) {
+        invalidateInvertedIndex();
+      }
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(str_count_, MAX_STRCOUNT)
@@ -505,6 +508,14 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
   std::vector<size_t> string_memory_ids;
   size_t sum_new_string_lengths = 0;
   string_memory_ids.reserve(input_strings.size());
+  auto store_new_strings = [&]() {
+    appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
+    const size_t num_strings_added = shadow_str_count - str_count_;
+    str_count_ = shadow_str_count;
+    if (num_strings_added > 0) {
+      invalidateInvertedIndex();
+    }
+  };
   size_t input_string_idx{0};
   for (const auto& input_string : input_strings) {
     // Skip strings found in the base dictionary.
@@ -550,7 +561,10 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     }
     // Did not find string, so need to add record to dictionary
     // First check there is room
-    if (shadow_str_count > static_cast<size_t>(max_valid_int_value<T>())) {
+    if (base_generation_ + shadow_str_count >
+        static_cast<size_t>(max_valid_int_value<T>())) {
+      // The strings processed so far are in the hash table, so they have to be stored.
+      store_new_strings();
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(shadow_str_count, MAX_STRCOUNT)
@@ -564,12 +578,7 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     }
     output_string_ids[input_string_idx++] = indexToId(shadow_str_count++);
   }
-  appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
-  const size_t num_strings_added = shadow_str_count - str_count_;
-  str_count_ = shadow_str_count;
-  if (num_strings_added > 0) {
-    invalidateInvertedIndex();
-  }
+  store_new_strings();
 }
 template void StringDictionary::getOrAddBulk(const std::vector<std::string>& string_vec,
                                              uint8_t* encoded_vec);
-- 
2.43.0


From 3931a8b3a26724f6e9463c456ea131d7b83633ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 04/40] fix: translation from a nested string dictionary to its
 own base dictionary failed

---
 omniscidb/StringDictionary/StringDictionary.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 3a00c74..45c234f 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1595,7 +1595,21 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
   }
 
   size_t base_num_strings_not_translated = 0;
-  if (source_dict->base_dict_) {
+  if (source_dict->base_dict_.get() == dest_dict) {
+    // Strings of the base dictionary keep their ids in it.
+    const int64_t num_base_strings =
+        std::min(source_generation, source_dict->base_generation_);
+    for (int64_t string_id = 0; string_id < num_base_strings; ++string_id) {
+      if (string_id < num_dest_strings) {
+        translated_ids[string_id] = string_id;
+      } else if (!dest_has_transients ||
+                 dest_transient_lookup_callback(source_dict->getString(string_id),
+                                                string_id)) {
+        translated_ids[string_id] = StringDictionary::INVALID_STR_ID;
+        base_num_strings_not_translated++;
+      }
+    }
+  } else if (source_dict->base_dict_) {
     base_num_strings_not_translated = buildDictionaryTranslationMap(
         source_dict->base_dict_.get(),
         dest_dict,
-- 
2.43.0


From 70bf97245b0b3fcd35054762239d5a61da932c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 05/40] fix: nested string dictionaries with different strings
 compared equal

---
 omniscidb/StringDictionary/StringDictionary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 45c234f..fdc4955 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -142,7 +142,8 @@ bool StringDictionary::operator==(StringDictionary const& rhs) const {
     return false;
   }
 
-  for (auto str_id = base_generation_; str_id < static_cast<int64_t>(str_count_);
+  for (auto str_id = base_generation_;
+       str_id < base_generation_ + static_cast<int64_t>(str_count_);
        ++str_id) {
     if (getOwnedStringChecked(str_id) != rhs.getOwnedStringChecked(str_id)) {
       return false;
-- 
2.43.0


From 48d36408fb33121bf8156bc54ae44862694318b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 06/40] fix: buildUnionTranslationMap read the source
 dictionary without its lock

---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index fdc4955..7f1037f 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1521,7 +1521,7 @@ std::vector<int32_t> StringDictionary::buildUnionTranslationMap(
          source_string_id < static_cast<int32_t>(translated_ids.size());
          ++source_string_id) {
       if (translated_ids[source_string_id] == StringDictionary::INVALID_STR_ID) {
-        const auto source_string = getStringUnlocked(source_string_id);
+        const auto source_string = getString(source_string_id);
         const auto dest_string_id = dest->getOrAdd(source_string);
         translated_ids[source_string_id] = dest_string_id;
       }
-- 
2.43.0


From 74d8f2604d2167b4cce098f28194eb7647be61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:26 +0000
Subject: [PATCH 07/40] fix: copyStrings updated the strings cache of a string
 dictionary without a lock

---
 omniscidb/StringDictionary/StringDictionary.cpp | 1 +
 omniscidb/StringDictionary/StringDictionary.h   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 7f1037f..2264666 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1078,6 +1078,7 @@ std::vector<int32_t> StringDictionary::getRegexpLike(const std::string& pattern,
 std::vector<std::string> StringDictionary::copyStrings(int64_t generation) const {
   generation = generation >= 0 ? std::min(generation, static_cast<int64_t>(entryCount()))
                                : static_cast<int64_t>(entryCount());
+  std::lock_guard<std::mutex> strings_cache_lock(strings_cache_mutex_);
   if (!strings_cache_) {
     strings_cache_ = std::make_shared<std::vector<std::string>>();
     strings_cache_->reserve(entryCount());
diff --git a/omniscidb/StringDictionary/StringDictionary.h b/omniscidb/StringDictionary/StringDictionary.h
index c5a0cef..045693c 100644
--- a/omniscidb/StringDictionary/StringDictionary.h
+++ b/omniscidb/StringDictionary/StringDictionary.h
@@ -25,6 +25,7 @@
 #include <functional>
 #include <future>
 #include <map>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <tuple>
@@ -277,6 +278,7 @@ class StringDictionary {
   mutable std::map<std::string, int32_t> equal_cache_;
   mutable DictionaryCache<std::string, compare_cache_value_t> compare_cache_;
   mutable std::shared_ptr<std::vector<std::string>> strings_cache_;
+  mutable std::mutex strings_cache_mutex_;
 
   char* CANARY_BUFFER{nullptr};
   size_t canary_buffer_size = 0;
-- 
2.43.0


From 7150b5f93423f4c81ee3d2051ca13a4319031045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:57 +0000
Subject: [PATCH 08/40] fix: number of untranslated strings counted those of
 the base dictionary once per task

---
 omniscidb/StringDictionary/StringDictionary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 2264666..a08d120 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1634,7 +1634,7 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
       tbb::blocked_range<int32_t>(source_dict->base_generation_,
                                   num_source_strings,
                                   target_strings_per_task /* tbb grain_size */),
-      base_num_strings_not_translated,
+      size_t(0),
       [&](const tbb::blocked_range<int32_t>& r, size_t num_strings_not_translated) {
         const int32_t start_idx = r.begin();
         const int32_t end_idx = r.end();
@@ -1667,7 +1667,7 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
         return num_strings_not_translated;
       },
       std::plus<size_t>());
-  return total_num_strings_not_translated;
+  return base_num_strings_not_translated + total_num_strings_not_translated;
 }
 
 namespace fast {
-- 
2.43.0


From e41a08a1293e1c91163176f1838a8a5ae34b6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:19 +0000
Subject: [PATCH 09/40] fix: release the buffer and wake waiters when
 BufferMgr::getBuffer cannot fetch

When the parent failed to extend a cached buffer, the in-progress mark of
its key was never removed (every later request for the chunk would wait
forever) and its pin was leaked.  When the parent failed to fill a new
buffer, the pinned and empty buffer stayed in the pool.
---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 38 ++++++++++++++++-------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index fc710d4..ca24a75 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -717,30 +717,40 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
       auto buffer_it = chunk_index_.find(key);
       bool found_buffer = buffer_it != chunk_index_.end();
       if (found_buffer) {
-        CHECK(buffer_it->second->buffer);
-        buffer_it->second->buffer->pin();
+        auto buffer = buffer_it->second->buffer;
+        CHECK(buffer);
+        buffer->pin();
         sized_segs_lock.unlock();
 
         buffer_it->second->last_touched = buffer_epoch_++;  // race
 
         // If we need to fetch a missing part of buffer, then lock it by
         // creating a conditional variable.
-        if (buffer_it->second->buffer->size() < num_bytes) {
+        if (buffer->size() < num_bytes) {
           in_progress_buffer_cvs_[key] = std::make_shared<std::condition_variable>();
 
           chunk_index_lock.unlock();
-          // need to fetch part of buffer we don't have - up to numBytes
-          parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
 
-          chunk_index_lock.lock();
-          in_progress_buffer_cvs_[key]->notify_all();
-          in_progress_buffer_cvs_.erase(key);
-          chunk_index_lock.unlock();
+          ScopeGuard sg([&]() {
+            chunk_index_lock.lock();
+            in_progress_buffer_cvs_[key]->notify_all();
+            in_progress_buffer_cvs_.erase(key);
+            chunk_index_lock.unlock();
+          });
+
+          // need to fetch part of buffer we don't have - up to numBytes
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            // the caller doesn't get the buffer and cannot unpin it
+            buffer->unPin();
+            throw;
+          }
         } else {
           chunk_index_lock.unlock();
         }
 
-        res = buffer_it->second->buffer;
+        res = buffer;
       } else {  // If wasn't in pool then we need to fetch it
         sized_segs_lock.unlock();
         // Create conditional variable to later notify all other threads
@@ -763,7 +773,13 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           AbstractBuffer* buffer = createBuffer(key, page_size_, num_bytes);
           // This should put buffer in a BufferSegment.
           // ColumnarConversionNotSupported exception can be thrown here.
-          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            // don't leave a pinned buffer without data in the pool
+            deleteBuffer(key);
+            throw;
+          }
           res = buffer;
         }
       }
-- 
2.43.0


From df63e88c9a80197cf4ac05ffeb71a729851fa39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:47 +0000
Subject: [PATCH 10/40] fix: unpin the source buffer when
 BufferMgr::fetchBuffer cannot fill its destination

If the destination pool was out of memory, the buffer stayed pinned in the
parent pool and could never be evicted.
---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index ca24a75..8e22c5d 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -827,8 +827,9 @@ void BufferMgr::fetchBuffer(const ChunkKey& key,
       }
     }
   }
+  // copyTo can run out of memory in the destination pool
+  ScopeGuard unpin([&]() { buffer->unPin(); });
   buffer->copyTo(dest_buffer, num_bytes);
-  buffer->unPin();
 }
 
 int BufferMgr::getBufferId() {
-- 
2.43.0


From 7789571461957b4580f315ba85c2bb0cf61b80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:32 +0000
Subject: [PATCH 11/40] fix: Buffer::unPin unlocked the mutex of a buffer it
 had deleted

---
 omniscidb/DataMgr/BufferMgr/Buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/Buffer.h b/omniscidb/DataMgr/BufferMgr/Buffer.h
index 92a880e..1ec1495 100644
--- a/omniscidb/DataMgr/BufferMgr/Buffer.h
+++ b/omniscidb/DataMgr/BufferMgr/Buffer.h
@@ -135,9 +135,10 @@ class Buffer : public AbstractBuffer {
   }
 
   inline int unPin() override {
-    std::lock_guard<std::mutex> pin_lock(pin_mutex_);
+    std::unique_lock<std::mutex> pin_lock(pin_mutex_);
     int res = (--pin_count_);
     if (!res && delete_on_unpin_) {
+      pin_lock.unlock();
       delete this;
     }
     return res;
-- 
2.43.0


From 27abf3b9266a9db4c785224e3c8d76218a6ed72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:33 +0000
Subject: [PATCH 12/40] fix: BufferMgr changed chunk_index_ without its lock

Eviction erased chunks from the index, and a failed createBuffer looked its
chunk up, while other threads could insert into it.
---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 8e22c5d..7328eb8 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -145,11 +145,14 @@ AbstractBuffer* BufferMgr::createBuffer(const ChunkKey& chunk_key,
   try {
     allocateBuffer(seg_it, actual_chunk_page_size, initial_size);
   } catch (const OutOfMemory&) {
-    auto buffer_it = chunk_index_.find(chunk_key);
-    CHECK(buffer_it != chunk_index_.end());
-    buffer_it->second->buffer =
-        nullptr;  // constructor failed for the buffer object so make sure to mark it
-                  // null so deleteBuffer doesn't try to delete it
+    {
+      std::lock_guard<std::mutex> lock(chunk_index_mutex_);
+      auto buffer_it = chunk_index_.find(chunk_key);
+      CHECK(buffer_it != chunk_index_.end());
+      buffer_it->second->buffer =
+          nullptr;  // constructor failed for the buffer object so make sure to mark it
+                    // null so deleteBuffer doesn't try to delete it
+    }
     deleteBuffer(chunk_key);
     throw;
   }
@@ -181,6 +184,7 @@ BufferList::iterator BufferMgr::evict(BufferList::iterator& evict_start,
     }
     num_pages += evict_it->num_pages;
     if (evict_it->mem_status == USED && evict_it->chunk_key.size() > 0) {
+      std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
       chunk_index_.erase(evict_it->chunk_key);
     }
     if (evict_it->buffer != nullptr) {
-- 
2.43.0


From dc15e398c670bb516ec9f9cf59a82029d92b9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:31 +0000
Subject: [PATCH 13/40] fix: deleteBuffersWithPrefix removed buffers another
 thread was still creating

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 7328eb8..843c1e9 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -653,6 +653,11 @@ void BufferMgr::deleteBuffersWithPrefix(const ChunkKey& key_prefix, const bool)
                      key_prefix.begin(),
                      key_prefix.end()) != buffer_it->first.begin() + key_prefix.size()) {
     auto seg_it = buffer_it->second;
+    if (in_progress_buffer_cvs_.count(buffer_it->first)) {
+      // another thread is still creating or filling this buffer
+      buffer_it++;
+      continue;
+    }
     if (seg_it->buffer) {
       if (seg_it->buffer->getPinCount() != 0) {
         // leave the buffer and buffer segment in place, they are in use elsewhere. once
-- 
2.43.0


From 273ab89c7430425910a8007e2aaadc57e56088ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:00 +0000
Subject: [PATCH 14/40] fix: read fp32 columns from lazily padded slots of
 columnar projections with their slot width

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 38153c2..86a48e1 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -1271,9 +1271,9 @@ TargetValue ResultSet::makeTargetValue(const int8_t* ptr,
   auto actual_compact_sz = compact_sz;
   auto type = target_info.type;
   if (type->isFp32()) {
-    if (query_mem_desc_.isLogicalSizedColumnsAllowed()) {
-      actual_compact_sz = sizeof(float);
-    } else {
+    // With logical sized columns the slot still can be padded to 8 bytes if it was
+    // prepared for a lazy fetch. Such slots hold doubles.
+    if (!query_mem_desc_.isLogicalSizedColumnsAllowed()) {
       actual_compact_sz = sizeof(double);
     }
     if (target_info.is_agg && (target_info.agg_kind == hdk::ir::AggType::kAvg ||
-- 
2.43.0


From 9befedbb7d30bb123b5a199a8d8ba5d80ef4b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:50 +0000
Subject: [PATCH 15/40] fix: materialize sorted results with an offset from the
 right rows

---
 omniscidb/ResultSetRegistry/ColumnarResults.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omniscidb/ResultSetRegistry/ColumnarResults.cpp b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
index a22924e..9fefb19 100644
--- a/omniscidb/ResultSetRegistry/ColumnarResults.cpp
+++ b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
@@ -258,11 +258,12 @@ void ColumnarResults::materializeAllProjectionColumnsThroughIteration(
     }
   } else {
     // In case of sorted result, global entry index is an index to the permutation
-    // buffer, so there is always a single chunk.
+    // buffer, so there is always a single chunk. Row count already takes limit and
+    // offset into account.
     size_t row_count = rows.rowCount();
-    size_t seg_begin = std::min(offset, row_count);
-    size_t seg_end = limit ? std::min(offset + limit, row_count) : row_count;
-    chunks.push_back(std::make_tuple(seg_begin, seg_end, (size_t)0));
+    if (row_count) {
+      chunks.push_back(std::make_tuple(offset, offset + row_count, (size_t)0));
+    }
   }
   auto process_chunk = [&](std::tuple<size_t, size_t, size_t> chunk) {
     // Diff between global entry index and fetched row index for this chunk.
-- 
2.43.0


From 688641b1654f4edb355045050b3442b6e5060c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:58 +0000
Subject: [PATCH 16/40] fix: a projection merged with an aggregate without keys
 aggregates

---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 2884b86..9e0460a 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -484,7 +484,8 @@ void WorkUnitBuilder::processProject(const ir::Project* proj) {
     input_rewriter_.addReplacement(proj, i, new_target_exprs[i]);
   }
   target_exprs_[rte_idx] = std::move(new_target_exprs);
-  if (groupby_exprs_.empty()) {
+  // A projection merged with an aggregate without keys is still an aggregate.
+  if (groupby_exprs_.empty() && !is_agg_) {
     groupby_exprs_.push_back(nullptr);
   }
 }
-- 
2.43.0


From aa6f290f472a0dab36a433c46d59c29fb2bafb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:58 +0000
Subject: [PATCH 17/40] fix: sign-extend integers read from result set slots
 wider than the value

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 86a48e1..ac65fcb 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -1352,8 +1352,9 @@ TargetValue ResultSet::makeTargetValue(const int8_t* ptr,
     }
     // TODO(alex): remove int_resize_cast, make read_int_from_buff return the
     // right type instead
-    if (inline_int_null_value(chosen_type) ==
-        int_resize_cast(ival, chosen_type->canonicalSize())) {
+    // The slot can be wider than the value, only canonicalSize bytes are meaningful.
+    ival = int_resize_cast(ival, chosen_type->canonicalSize());
+    if (inline_int_null_value(chosen_type) == ival) {
       return inline_int_null_value(type);
     }
     return ival;
-- 
2.43.0


From 376bdca901658b255599e3b61a33731340929a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:04 +0000
Subject: [PATCH 18/40] fix: outer join columns and keyless aggregates are
 nullable in derived nodes

getColumnType reported the right-hand columns of a LEFT join and the
aggregates of a keyless aggregation with the nullability of the source
column, so IS NULL over them was folded to false.
---
 omniscidb/IR/Node.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index ea9dd75..c30295f 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -521,7 +521,16 @@ const Type* getColumnType(const Node* node, size_t col_idx) {
     if (col_idx < agg->getGroupByCount()) {
       return getColumnType(agg->getInput(0), col_idx);
     } else {
-      return agg->getAggs()[col_idx - agg->getGroupByCount()]->type();
+      auto& expr = agg->getAggs()[col_idx - agg->getGroupByCount()];
+      auto agg_expr = expr->as<AggExpr>();
+      // Without keys there is always a row, even if the input is empty. All aggregates
+      // but counters are NULL then.
+      if (!agg->getGroupByCount() && agg_expr &&
+          agg_expr->aggType() != AggType::kCount &&
+          agg_expr->aggType() != AggType::kApproxCountDistinct) {
+        return expr->type()->withNullable(true);
+      }
+      return expr->type();
     }
   }
 
@@ -551,7 +560,10 @@ const Type* getColumnType(const Node* node, size_t col_idx) {
     if (col_idx < join->getInput(0)->size()) {
       return getColumnType(join->getInput(0), col_idx);
     } else {
-      return getColumnType(join->getInput(1), col_idx - join->getInput(0)->size());
+      auto type =
+          getColumnType(join->getInput(1), col_idx - join->getInput(0)->size());
+      // RHS of left join is always nullable.
+      return join->getJoinType() == JoinType::LEFT ? type->withNullable(true) : type;
     }
   }
 
-- 
2.43.0


From 55b93f85d2a79fcc586b5d1936ece0b445f6c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:04 +0000
Subject: [PATCH 19/40] fix: linearize tables with empty fragments without
 running past the fragment list

---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 62fd71f..26ef1ac 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -342,7 +342,8 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
             CHECK(ab->getMemoryPtr());
             int8_t* col_buffer =
                 ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(write_ptrs[frag_id].first, col_buffer, write_ptrs[frag_id].second);
+            memcpy(
+                write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
           }
         });
 
-- 
2.43.0


From fa5e4f42f5a883b984b55d65bbf4e174aa328b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:30 +0000
Subject: [PATCH 20/40] fix: linearize table columns under the fetch lock
 without picking up other tasks

tbb::parallel_for called with the non-recursive columnar_fetch_mutex_ held
could make the waiting thread run another kernel, which locks it again.
---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 66 +++++++++++++------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 26ef1ac..e770acc 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -24,6 +24,7 @@
 #include "Shared/sqltypes.h"
 
 #include <tbb/parallel_for.h>
+#include <tbb/task_arena.h>
 #include <memory>
 
 namespace {
@@ -314,38 +315,41 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
 
     CHECK(!write_ptrs.empty());
     size_t valid_frag_count = valid_fragments.size();
-    tbb::parallel_for(
-        tbb::blocked_range<size_t>(0, valid_frag_count),
-        [&](const tbb::blocked_range<size_t>& frag_ids) {
-          for (size_t v_frag_id = frag_ids.begin(); v_frag_id < frag_ids.end();
-               ++v_frag_id) {
-            std::list<std::shared_ptr<Chunk_NS::Chunk>> chunk_holder;
-            std::list<ChunkIter> chunk_iter_holder;
-            size_t frag_id = valid_fragments[v_frag_id];
-            const auto& fragment = (*fragments)[frag_id];
-            auto chunk_meta_it = fragment.getChunkMetadataMap().find(col_id);
-            CHECK(chunk_meta_it != fragment.getChunkMetadataMap().end());
-            std::shared_ptr<Chunk_NS::Chunk> chunk;
-            {
-              ChunkKey chunk_key{
-                  db_id, fragment.physicalTableId, col_id, fragment.fragmentId};
-              chunk = data_provider_->getChunk(col_info,
-                                               chunk_key,
-                                               Data_Namespace::CPU_LEVEL,
-                                               0,
-                                               chunk_meta_it->second->numBytes(),
-                                               chunk_meta_it->second->numElements());
-              std::lock_guard<std::mutex> chunk_list_lock(chunk_list_mutex_);
-              chunk_holder.push_back(chunk);
+    // We hold a lock here, so the waiting thread mustn't pick up unrelated tasks.
+    tbb::this_task_arena::isolate([&] {
+      tbb::parallel_for(
+          tbb::blocked_range<size_t>(0, valid_frag_count),
+          [&](const tbb::blocked_range<size_t>& frag_ids) {
+            for (size_t v_frag_id = frag_ids.begin(); v_frag_id < frag_ids.end();
+                 ++v_frag_id) {
+              std::list<std::shared_ptr<Chunk_NS::Chunk>> chunk_holder;
+              std::list<ChunkIter> chunk_iter_holder;
+              size_t frag_id = valid_fragments[v_frag_id];
+              const auto& fragment = (*fragments)[frag_id];
+              auto chunk_meta_it = fragment.getChunkMetadataMap().find(col_id);
+              CHECK(chunk_meta_it != fragment.getChunkMetadataMap().end());
+              std::shared_ptr<Chunk_NS::Chunk> chunk;
+              {
+                ChunkKey chunk_key{
+                    db_id, fragment.physicalTableId, col_id, fragment.fragmentId};
+                chunk = data_provider_->getChunk(col_info,
+                                                 chunk_key,
+                                                 Data_Namespace::CPU_LEVEL,
+                                                 0,
+                                                 chunk_meta_it->second->numBytes(),
+                                                 chunk_meta_it->second->numElements());
+                std::lock_guard<std::mutex> chunk_list_lock(chunk_list_mutex_);
+                chunk_holder.push_back(chunk);
+              }
+              auto ab = chunk->getBuffer();
+              CHECK(ab->getMemoryPtr());
+              int8_t* col_buffer =
+                  ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
+              memcpy(
+                  write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
             }
-            auto ab = chunk->getBuffer();
-            CHECK(ab->getMemoryPtr());
-            int8_t* col_buffer =
-                ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(
-                write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
-          }
-        });
+          });
+    });
 
     std::unique_ptr<ColumnarResults> merged_results(new ColumnarResults(
         {write_ptrs[0].first}, total_row_count, col_info->type, thread_idx));
-- 
2.43.0


From 0fb2bd37859064ff85f1095b5725b0166a3277c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:30 +0000
Subject: [PATCH 21/40] fix: groups with no values to MIN are not lost by
 keyless hash tables

---
 omniscidb/QueryEngine/MemoryLayoutBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
index b0859a6..beb0311 100644
--- a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
+++ b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
@@ -332,6 +332,12 @@ KeylessInfo get_keyless_info(const RelAlgExecutionUnit& ra_exe_unit,
           }
           auto expr_range_info =
               getExpressionRange(agg_expr->arg(), query_infos, executor);
+          // NULL sentinel and init value for nullable kMin are identical, which results
+          // in ambiguity in detecting empty keys in presence of nulls.
+          if (expr_range_info.getType() == ExpressionRangeType::Invalid ||
+              expr_range_info.hasNulls()) {
+            break;
+          }
           auto init_max = get_agg_initial_val(agg_info.agg_kind,
                                               chosen_type,
                                               is_group_by || float_argument_input,
-- 
2.43.0


From 3ace385808b2845722f7ffca45a499e6726e3a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:42 +0000
Subject: [PATCH 22/40] fix: joining with a column of nulls only does not abort
 on an empty hash table

---
 .../QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
index 8d45b12..aa77ed3 100644
--- a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
@@ -1142,6 +1142,10 @@ void fill_one_to_many_hash_table_impl(int32_t* buff,
                                       COUNT_MATCHES_LAUNCH_FUNCTOR count_matches_func,
                                       FILL_ROW_IDS_LAUNCH_FUNCTOR fill_row_ids_func) {
   auto timer = DEBUG_TIMER(__func__);
+  if (hash_entry_count == 0) {
+    // No keys but nulls, nothing to put into the table.
+    return;
+  }
   int32_t* pos_buff = buff;
   int32_t* count_buff = buff + hash_entry_count;
   memset(count_buff, 0, hash_entry_count * sizeof(int32_t));
-- 
2.43.0


From 3bdca38b30110856d4110a0454d31524eacdd622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:47 +0000
Subject: [PATCH 23/40] fix: concurrent queries wait for each other's reduction
 code instead of aborting

---
 omniscidb/QueryEngine/CodeCacheAccessor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/CodeCacheAccessor.h b/omniscidb/QueryEngine/CodeCacheAccessor.h
index 23699d2..96d48c0 100644
--- a/omniscidb/QueryEngine/CodeCacheAccessor.h
+++ b/omniscidb/QueryEngine/CodeCacheAccessor.h
@@ -77,8 +77,8 @@ class CodeCacheAccessor {
       return result;
     }
 
-    // wait when another thread is compiling code for key
-    compilation_cv_.wait(lk, [&] { return !compiling(key); });
+    // wait when another thread is compiling code (for this or another key)
+    compilation_cv_.wait(lk, [&] { return !compiling_key_; });
 
     result = code_cache_.get(key);
     if (result) {
-- 
2.43.0


From 6c67bca107de3c03367dca36ca0d062d29df13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:47 +0000
Subject: [PATCH 24/40] fix: tail of a result keeps the order of its fragments

---
 omniscidb/ResultSetRegistry/ResultSetRegistry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
index fec26ff..e173bb3 100644
--- a/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetRegistry.cpp
@@ -331,6 +331,8 @@ ResultSetTableTokenPtr ResultSetRegistry::tail(const ResultSetTableToken& token,
         break;
       }
     }
+    // Fragments were visited from the last to the first.
+    std::reverse(new_results.begin(), new_results.end());
   }
 
   // Copy column names to the resulting table.
-- 
2.43.0


From 0619a77569c13c9855d7fbacef14c123ed6a356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:47 +0000
Subject: [PATCH 25/40] fix: results with an offset are not converted from the
 beginning of their buffers

---
 omniscidb/ResultSet/ResultSet.cpp               | 6 +++++-
 omniscidb/ResultSetRegistry/ColumnarResults.cpp | 7 ++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSet.cpp b/omniscidb/ResultSet/ResultSet.cpp
index 300c087..65c182b 100644
--- a/omniscidb/ResultSet/ResultSet.cpp
+++ b/omniscidb/ResultSet/ResultSet.cpp
@@ -901,6 +901,10 @@ ResultSet::getUniqueStringsForDictEncodedTargetCol(const size_t col_idx) const {
  * becomes equivalent to the row-wise columnarization.
  */
 bool ResultSet::isDirectColumnarConversionPossible() const {
+  // Buffers are copied from their very beginning.
+  if (drop_first_) {
+    return false;
+  }
   if (query_mem_desc_.didOutputColumnar()) {
     return permutation_.empty() && (query_mem_desc_.getQueryDescriptionType() ==
                                         QueryDescriptionType::Projection ||
@@ -920,7 +924,7 @@ bool ResultSet::isZeroCopyColumnarConversionPossible(size_t column_idx) const {
   return query_mem_desc_.didOutputColumnar() &&
          query_mem_desc_.getQueryDescriptionType() == QueryDescriptionType::Projection &&
          !colType(column_idx)->isVarLen() && !colType(column_idx)->isArray() &&
-         appended_storage_.empty() && storage_ &&
+         appended_storage_.empty() && storage_ && !drop_first_ &&
          (lazy_fetch_info_.empty() || !lazy_fetch_info_[column_idx].is_lazily_fetched);
 }
 
diff --git a/omniscidb/ResultSetRegistry/ColumnarResults.cpp b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
index 9fefb19..d83457a 100644
--- a/omniscidb/ResultSetRegistry/ColumnarResults.cpp
+++ b/omniscidb/ResultSetRegistry/ColumnarResults.cpp
@@ -304,10 +304,11 @@ void ColumnarResults::materializeAllColumnsThroughIteration(const ResultSet& row
       return;
     }
 
-    // Parallel fetch for GroupBy buffer doesn't respect rows order, so don't use
-    // it for sorted results and varlen data (offsets are pre-computed for the
+    // Parallel fetch for GroupBy buffer doesn't respect rows order, limit and offset, so
+    // don't use it for sorted and truncated results and varlen data (offsets are pre-computed for the
     // original rows order in the groupby buffer).
-    if (rows.isPermutationBufferEmpty() && offset_buffers_.empty()) {
+    if (rows.isPermutationBufferEmpty() && offset_buffers_.empty() &&
+        !rows.getOffset() && !rows.getLimit()) {
       materializeAllGroupbyColumnsThroughIteration(rows, num_columns);
       return;
     }
-- 
2.43.0


From 36a39e3a3deb5dffcc051824f111844cc07ff000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:02 +0000
Subject: [PATCH 26/40] fix: padded fp32 columns of columnar projections are
 not copied as they are

---
 omniscidb/ResultSet/ResultSet.cpp | 25 +++++++++++++++++++++++--
 omniscidb/ResultSet/ResultSet.h   |  3 +++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSet.cpp b/omniscidb/ResultSet/ResultSet.cpp
index 65c182b..272770e 100644
--- a/omniscidb/ResultSet/ResultSet.cpp
+++ b/omniscidb/ResultSet/ResultSet.cpp
@@ -900,11 +900,30 @@ ResultSet::getUniqueStringsForDictEncodedTargetCol(const size_t col_idx) const {
  * NOTE: If there exists a permutation vector (i.e., in some ORDER BY queries), it
  * becomes equivalent to the row-wise columnarization.
  */
+bool ResultSet::isPaddedColumn(size_t column_idx) const {
+  auto type = colType(column_idx);
+  if (type->isVarLen() || type->isArray() ||
+      (!lazy_fetch_info_.empty() && lazy_fetch_info_[column_idx].is_lazily_fetched)) {
+    return false;
+  }
+  auto slot_idx = query_mem_desc_.getSlotIndexForSingleSlotCol(column_idx);
+  return query_mem_desc_.getPaddedSlotWidthBytes(slot_idx) != type->size();
+}
+
 bool ResultSet::isDirectColumnarConversionPossible() const {
   // Buffers are copied from their very beginning.
   if (drop_first_) {
     return false;
   }
+  // Padded values have to be read one by one.
+  if (query_mem_desc_.didOutputColumnar() &&
+      query_mem_desc_.getQueryDescriptionType() == QueryDescriptionType::Projection) {
+    for (size_t i = 0; i < colCount(); ++i) {
+      if (isPaddedColumn(i)) {
+        return false;
+      }
+    }
+  }
   if (query_mem_desc_.didOutputColumnar()) {
     return permutation_.empty() && (query_mem_desc_.getQueryDescriptionType() ==
                                         QueryDescriptionType::Projection ||
@@ -925,7 +944,8 @@ bool ResultSet::isZeroCopyColumnarConversionPossible(size_t column_idx) const {
          query_mem_desc_.getQueryDescriptionType() == QueryDescriptionType::Projection &&
          !colType(column_idx)->isVarLen() && !colType(column_idx)->isArray() &&
          appended_storage_.empty() && storage_ && !drop_first_ &&
-         (lazy_fetch_info_.empty() || !lazy_fetch_info_[column_idx].is_lazily_fetched);
+         (lazy_fetch_info_.empty() || !lazy_fetch_info_[column_idx].is_lazily_fetched) &&
+         !isPaddedColumn(column_idx);
 }
 
 bool ResultSet::isChunkedZeroCopyColumnarConversionPossible(size_t column_idx) const {
@@ -933,7 +953,8 @@ bool ResultSet::isChunkedZeroCopyColumnarConversionPossible(size_t column_idx) c
          query_mem_desc_.getQueryDescriptionType() == QueryDescriptionType::Projection &&
          !colType(column_idx)->isVarLen() && !colType(column_idx)->isArray() &&
          storage_ &&
-         (lazy_fetch_info_.empty() || !lazy_fetch_info_[column_idx].is_lazily_fetched);
+         (lazy_fetch_info_.empty() || !lazy_fetch_info_[column_idx].is_lazily_fetched) &&
+         !isPaddedColumn(column_idx);
 }
 
 const int8_t* ResultSet::getColumnarBuffer(size_t column_idx) const {
diff --git a/omniscidb/ResultSet/ResultSet.h b/omniscidb/ResultSet/ResultSet.h
index 400c413..1d44218 100644
--- a/omniscidb/ResultSet/ResultSet.h
+++ b/omniscidb/ResultSet/ResultSet.h
@@ -648,6 +648,9 @@ class ResultSet {
  private:
   ResultSet(const ResultSet& other);
 
+  // Tells if values of a column are stored in slots wider than its type.
+  bool isPaddedColumn(size_t column_idx) const;
+
   void advanceCursorToNextEntry(ResultSetRowIterator& iter) const;
 
   std::vector<TargetValue> getNextRowImpl(const bool translate_strings,
-- 
2.43.0


From 6003f862953254e7ba16fee75f48a739c57acde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 27/40] fix: statistics of encoded data keep the bounds of the
 values instead of truncated sentinels

---
 omniscidb/DataMgr/FixedLengthEncoder.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/DataMgr/FixedLengthEncoder.h b/omniscidb/DataMgr/FixedLengthEncoder.h
index 53e108a..a4232af 100644
--- a/omniscidb/DataMgr/FixedLengthEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthEncoder.h
@@ -85,14 +85,14 @@ class FixedLengthEncoder : public Encoder {
 
     std::tie(dataMin, dataMax, has_nulls) = tbb::parallel_reduce(
         tbb::blocked_range(size_t(0), num_elements),
-        std::tuple(static_cast<V>(dataMin), static_cast<V>(dataMax), has_nulls),
+        std::tuple(dataMin, dataMax, has_nulls),
         [&](const auto& range, auto init) {
           auto [min, max, nulls] = init;
           for (size_t i = range.begin(); i < range.end(); i++) {
             if (data[i] != inline_null_value<V>()) {
               if (!fixlen_array || data[i] != inline_null_array_value<V>()) {
-                min = std::min(min, data[i]);
-                max = std::max(max, data[i]);
+                min = std::min(min, static_cast<T>(data[i]));
+                max = std::max(max, static_cast<T>(data[i]));
               }
             } else {
               nulls = true;
-- 
2.43.0


From dfe91143b8fb3294f829056573a2a08967c993a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 28/40] fix: bounds set on an array encoder are not forgotten
 by the next update

---
 omniscidb/DataMgr/ArrayNoneEncoder.h            | 1 +
 omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/omniscidb/DataMgr/ArrayNoneEncoder.h b/omniscidb/DataMgr/ArrayNoneEncoder.h
index 040f3bc..e84872e 100644
--- a/omniscidb/DataMgr/ArrayNoneEncoder.h
+++ b/omniscidb/DataMgr/ArrayNoneEncoder.h
@@ -141,6 +141,7 @@ class ArrayNoneEncoder : public Encoder {
     elem_min = stats.min;
     elem_max = stats.max;
     has_nulls = stats.has_nulls;
+    initialized = true;
     return true;
   }
 
diff --git a/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h b/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
index 0002472..af83a9f 100644
--- a/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
@@ -191,6 +191,7 @@ class FixedLengthArrayNoneEncoder : public Encoder {
     elem_min = stats.min;
     elem_max = stats.max;
     has_nulls = stats.has_nulls;
+    initialized = true;
     return true;
   }
 
-- 
2.43.0


From 514d89e3a13262b33029482f6eee2af67ec63f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:52 +0000
Subject: [PATCH 29/40] fix: apply_shim rewrote the wrong place (or never
 ended) after skipping a literal

---
 omniscidb/Shared/StringTransform.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/omniscidb/Shared/StringTransform.cpp b/omniscidb/Shared/StringTransform.cpp
index 7578986..1582006 100644
--- a/omniscidb/Shared/StringTransform.cpp
+++ b/omniscidb/Shared/StringTransform.cpp
@@ -34,21 +34,22 @@ void apply_shim(std::string& result,
                 const std::function<void(std::string&, const boost::smatch&)>& shim_fn) {
   boost::smatch what;
   std::vector<std::pair<size_t, size_t>> lit_pos = find_string_literals(result);
-  auto start_it = result.cbegin();
-  auto end_it = result.cend();
+  size_t start = 0;
   while (true) {
-    if (!boost::regex_search(start_it, end_it, what, reg_expr)) {
+    // Match positions are relative to the searched part of the query.
+    std::string part = result.substr(start);
+    if (!boost::regex_search(part, what, reg_expr)) {
       break;
     }
     const auto next_start =
-        inside_string_literal(what.position(), what.length(), lit_pos);
+        inside_string_literal(start + what.position(), what.length(), lit_pos);
     if (next_start) {
-      start_it = result.cbegin() + *next_start;
+      start = *next_start;
     } else {
-      shim_fn(result, what);
+      shim_fn(part, what);
+      result.replace(start, std::string::npos, part);
       lit_pos = find_string_literals(result);
-      start_it = result.cbegin();
-      end_it = result.cend();
+      start = 0;
     }
   }
 }
-- 
2.43.0


From d9a40b9e5fa93fccd94d1b46ecd61495293b6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:52 +0000
Subject: [PATCH 30/40] fix: find_string_literals missed empty literals and
 misplaced those after them

---
 omniscidb/Shared/StringTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Shared/StringTransform.cpp b/omniscidb/Shared/StringTransform.cpp
index 1582006..13a81b2 100644
--- a/omniscidb/Shared/StringTransform.cpp
+++ b/omniscidb/Shared/StringTransform.cpp
@@ -55,7 +55,7 @@ void apply_shim(std::string& result,
 }
 
 std::vector<std::pair<size_t, size_t>> find_string_literals(const std::string& query) {
-  boost::regex literal_string_regex{R"(([^']+)('(?:[^']+|'')+'))", boost::regex::perl};
+  boost::regex literal_string_regex{R"(([^']+)('(?:[^']+|'')*'))", boost::regex::perl};
   boost::smatch what;
   auto it = query.begin();
   auto prev_it = it;
-- 
2.43.0


From 2b5f054ffcb48c5887883aa584b2f415d9baaeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:52 +0000
Subject: [PATCH 31/40] fix: the date parser rejected full month names

---
 omniscidb/Shared/DateTimeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Shared/DateTimeParser.cpp b/omniscidb/Shared/DateTimeParser.cpp
index 33afc0e..25e6693 100644
--- a/omniscidb/Shared/DateTimeParser.cpp
+++ b/omniscidb/Shared/DateTimeParser.cpp
@@ -43,7 +43,7 @@ constexpr std::array<int, 12> month_prefixes{{int('j') << 16 | int('a') << 8 | i
                                               int('d') << 16 | int('e') << 8 | int('c')}};
 
 constexpr std::array<std::string_view, 13> month_suffixes{
-    {""
+    {"",
      "uary",
      "ruary",
      "ch",
-- 
2.43.0


From 42a36abdbb5d0902a8081f102523e6e0e2a32d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:07 +0000
Subject: [PATCH 32/40] fix: dates outside 1970 to 2036 and negative sub-second
 timestamps were printed wrong

---
 omniscidb/Utils/ExtractFromTime.h         |  1 +
 omniscidb/Utils/ExtractStringFromTime.cpp | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/omniscidb/Utils/ExtractFromTime.h b/omniscidb/Utils/ExtractFromTime.h
index b0473ad..d0e0430 100644
--- a/omniscidb/Utils/ExtractFromTime.h
+++ b/omniscidb/Utils/ExtractFromTime.h
@@ -73,6 +73,7 @@ constexpr unsigned MARJAN = 31 + 30 + 31 + 30 + 31 + 31 + 30 + 31 + 30 + 31;
 constexpr unsigned JANMAR = 31 + 28;  // leap day handled separately
 
 extern "C" int64_t RUNTIME_EXPORT extract_month(const int64_t timeval);
+extern "C" int64_t RUNTIME_EXPORT extract_year(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_day(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_hour(const int64_t timeval);
 extern "C" int64_t RUNTIME_EXPORT extract_minute(const int64_t timeval);
diff --git a/omniscidb/Utils/ExtractStringFromTime.cpp b/omniscidb/Utils/ExtractStringFromTime.cpp
index ffad9da..129761e 100644
--- a/omniscidb/Utils/ExtractStringFromTime.cpp
+++ b/omniscidb/Utils/ExtractStringFromTime.cpp
@@ -32,13 +32,13 @@ std::string getStrDayFromSeconds(const int64_t seconds_tstamp) {
 
 std::string getStrMonthFromSeconds(const int64_t seconds_tstamp) {
   std::ostringstream oss;
-  oss << std::setfill('0') << std::setw(2) << extract_month_fast(seconds_tstamp);
+  oss << std::setfill('0') << std::setw(2) << extract_month(seconds_tstamp);
   return oss.str();
 }
 
 std::string getStrYearFromSeconds(const int64_t seconds_tstamp) {
   std::ostringstream oss;
-  oss << std::setfill('0') << std::setw(2) << extract_year_fast(seconds_tstamp);
+  oss << std::setfill('0') << std::setw(2) << extract_year(seconds_tstamp);
   return oss.str();
 }
 
@@ -61,11 +61,11 @@ std::string getStrTimeFromSeconds(const int64_t seconds_tstamp) {
 std::string getStrTimeStampSecondsScaled(const int64_t tstamp,
                                          const int64_t seconds_scale) {
   std::ostringstream oss;
-  oss << getStrDateFromSeconds(tstamp / seconds_scale) << " "
-      << getStrTimeFromSeconds(tstamp / seconds_scale);
+  const int64_t seconds = floor_div(tstamp, seconds_scale);
+  oss << getStrDateFromSeconds(seconds) << " " << getStrTimeFromSeconds(seconds);
   if (seconds_scale > 1) {
     oss << "." << std::setfill('0') << std::setw(log10(seconds_scale))
-        << tstamp % seconds_scale;
+        << unsigned_mod(tstamp, seconds_scale);
   }
   return oss.str();
 }
-- 
2.43.0


From 0ad96af048e9eefcd0f3354292d6bde4c43658ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:39 +0000
Subject: [PATCH 33/40] fix: array and dictionary types could not be copied to
 another context

---
 omniscidb/IR/Context.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index 62ad477..f3eae10 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -294,19 +294,20 @@ class ContextImpl {
       case Type::kFixedLenArray: {
         auto fixed_array_type = static_cast<const FixedLenArrayType*>(type);
         return arrayFixed(fixed_array_type->numElems(),
-                          fixed_array_type->elemType(),
+                          copyType(fixed_array_type->elemType()),
                           fixed_array_type->nullable());
       }
       case Type::kVarLenArray: {
         auto varlen_array_type = static_cast<const VarLenArrayType*>(type);
-        return arrayVarLen(varlen_array_type->elemType(),
+        return arrayVarLen(copyType(varlen_array_type->elemType()),
                            varlen_array_type->offsetSize(),
                            varlen_array_type->nullable());
       }
       case Type::kExtDictionary: {
         auto ext_dict_type = static_cast<const ExtDictionaryType*>(type);
-        return extDict(
-            ext_dict_type->elemType(), ext_dict_type->dictId(), ext_dict_type->size());
+        return extDict(copyType(ext_dict_type->elemType()),
+                       ext_dict_type->dictId(),
+                       ext_dict_type->size());
       }
       default:
         throw InvalidTypeError() << "Unexpected type: " << type;
-- 
2.43.0


From 77b95459d064e721da3c5765db82e3aca1d77d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:39 +0000
Subject: [PATCH 34/40] fix: printed names of varlen array and NOT NULL
 dictionary types could not be read back

---
 omniscidb/IR/Context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index f3eae10..3b90bbf 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -427,7 +427,7 @@ class ContextImpl {
     }
     // Varlen array types.
     if (std::regex_match(
-            val_lower, match_res, std::regex("array\\((.+)\\)(\\[nn\\])?"))) {
+            val_lower, match_res, std::regex("array(?:32)?\\((.+)\\)(\\[nn\\])?"))) {
       const Type* elem_type = typeFromString(match_res[1].str());
       return arrayVarLen(elem_type, 4, !match_res[2].matched);
     }
@@ -435,10 +435,13 @@ class ContextImpl {
     if (std::regex_match(
             val_lower,
             match_res,
-            std::regex("dict(8|16|32)?(?:\\((.+)\\))?(?:\\[(-?\\d+)\\])?"))) {
+            std::regex("dict(8|16|32)?(?:\\((.+)\\))?(?:\\[(-?\\d+)\\])?(\\[nn\\])?"))) {
       int size = match_res[1].matched ? std::stoi(match_res[1].str()) / 8 : 4;
       const Type* elem_type =
           match_res[2].matched ? typeFromString(match_res[2].str()) : text(true);
+      if (match_res[4].matched) {
+        elem_type = elem_type->withNullable(false);
+      }
       int dict_id = match_res[3].matched ? std::stoi(match_res[3].str()) : 0;
       return extDict(elem_type, dict_id, size);
     }
-- 
2.43.0


From 769564c1704320bf871de57e2a66946bc912d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:39 +0000
Subject: [PATCH 35/40] fix: the hash of a dictionary-encoded Datum read its
 index as a string pointer

---
 omniscidb/IR/Datum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index ba04a69..63f1fcd 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -405,6 +405,7 @@ size_t hash(Datum datum, const hdk::ir::Type* type) {
       break;
     case hdk::ir::Type::kExtDictionary:
       boost::hash_combine(res, datum.intval);
+      break;
     case hdk::ir::Type::kVarChar:
     case hdk::ir::Type::kText:
       if (datum.stringval) {
-- 
2.43.0


From 722a543eee60f357209f0ee0f2cca5db5dd33ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:39 +0000
Subject: [PATCH 36/40] fix: expressions with different parameters compared
 equal

---
 omniscidb/IR/Expr.cpp | 22 ++++++++++++++++------
 omniscidb/IR/Expr.h   |  8 +++++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index d52b9aa..7f096c6 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -976,8 +976,8 @@ bool ColumnVar::operator==(const Expr& rhs) const {
   }
   const ColumnVar& rhs_cv = dynamic_cast<const ColumnVar&>(rhs);
   if (rte_idx_ != -1) {
-    return (tableId() == rhs_cv.tableId()) && (columnId() == rhs_cv.columnId()) &&
-           (rte_idx_ == rhs_cv.rteIdx());
+    return (dbId() == rhs_cv.dbId()) && (tableId() == rhs_cv.tableId()) &&
+           (columnId() == rhs_cv.columnId()) && (rte_idx_ == rhs_cv.rteIdx());
   }
   const Var* v = dynamic_cast<const Var*>(this);
   if (v == nullptr) {
@@ -1022,7 +1022,8 @@ bool UOper::operator==(const Expr& rhs) const {
   }
   const UOper& rhs_uo = dynamic_cast<const UOper&>(rhs);
   return op_type_ == rhs_uo.opType() && *operand_ == *rhs_uo.operand() &&
-         is_dict_intersection_ == rhs_uo.is_dict_intersection_;
+         is_dict_intersection_ == rhs_uo.is_dict_intersection_ &&
+         (!isCast() || type_->equal(rhs_uo.type()));
 }
 
 bool BinOper::operator==(const Expr& rhs) const {
@@ -1030,7 +1031,8 @@ bool BinOper::operator==(const Expr& rhs) const {
     return false;
   }
   const BinOper& rhs_bo = dynamic_cast<const BinOper&>(rhs);
-  return op_type_ == rhs_bo.opType() && *left_operand_ == *rhs_bo.leftOperand() &&
+  return op_type_ == rhs_bo.opType() && qualifier_ == rhs_bo.qualifier() &&
+         *left_operand_ == *rhs_bo.leftOperand() &&
          *right_operand_ == *rhs_bo.rightOperand();
 }
 
@@ -1103,7 +1105,7 @@ bool LikeExpr::operator==(const Expr& rhs) const {
   }
   const LikeExpr& rhs_lk = dynamic_cast<const LikeExpr&>(rhs);
   if (!(*arg_ == *rhs_lk.arg()) || !(*like_expr_ == *rhs_lk.likeExpr()) ||
-      is_ilike_ != rhs_lk.isIlike()) {
+      is_ilike_ != rhs_lk.isIlike() || is_simple_ != rhs_lk.isSimple()) {
     return false;
   }
   if (escape_expr_.get() == rhs_lk.escapeExpr()) {
@@ -1198,6 +1200,10 @@ bool AggExpr::operator==(const Expr& rhs) const {
       interpolation_ != rhs_ae.interpolation_) {
     return false;
   }
+  if (arg1_.get() != rhs_ae.arg1() &&
+      (!arg1_ || !rhs_ae.arg1() || !(*arg1_ == *rhs_ae.arg1()))) {
+    return false;
+  }
   if (arg_.get() == rhs_ae.arg()) {
     return true;
   }
@@ -1274,7 +1280,8 @@ bool WindowFunction::operator==(const Expr& rhs) const {
   }
   if (kind_ != rhs_window->kind_ || args_.size() != rhs_window->args_.size() ||
       partition_keys_.size() != rhs_window->partition_keys_.size() ||
-      order_keys_.size() != rhs_window->order_keys_.size()) {
+      order_keys_.size() != rhs_window->order_keys_.size() ||
+      collation_ != rhs_window->collation_) {
     return false;
   }
   return exprsEqual(args_, rhs_window->args_) &&
@@ -1287,6 +1294,9 @@ bool ArrayExpr::operator==(Expr const& rhs) const {
     return false;
   }
   ArrayExpr const& casted_rhs = static_cast<ArrayExpr const&>(rhs);
+  if (contained_expressions_.size() != casted_rhs.contained_expressions_.size()) {
+    return false;
+  }
   for (unsigned i = 0; i < contained_expressions_.size(); i++) {
     auto& lhs_expr = contained_expressions_[i];
     auto& rhs_expr = casted_rhs.contained_expressions_[i];
diff --git a/omniscidb/IR/Expr.h b/omniscidb/IR/Expr.h
index 3b83480..732a05e 100644
--- a/omniscidb/IR/Expr.h
+++ b/omniscidb/IR/Expr.h
@@ -502,7 +502,7 @@ class InSubquery : public Expr {
 
   bool operator==(const Expr& rhs) const override {
     const InSubquery* rhsp = dynamic_cast<const InSubquery*>(&rhs);
-    return rhsp && node_ == rhsp->node_;
+    return rhsp && node_ == rhsp->node_ && *arg_ == *rhsp->arg_;
   }
 
   std::string toString() const override;
@@ -1025,6 +1025,12 @@ struct OrderEntry {
   std::string toString() const;
   void print() const;
 
+  bool operator==(const OrderEntry& rhs) const {
+    return tle_no == rhs.tle_no && is_desc == rhs.is_desc &&
+           nulls_first == rhs.nulls_first;
+  }
+  bool operator!=(const OrderEntry& rhs) const { return !(*this == rhs); }
+
   size_t hash() const {
     size_t res = 0;
     boost::hash_combine(res, tle_no);
-- 
2.43.0


From 9e6d61938b0324215fa0610535ec34623337505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:39 +0000
Subject: [PATCH 37/40] fix: timestamps before 1970 were rounded up when cast
 to a coarser unit

---
 omniscidb/QueryEngine/CastIR.cpp      | 11 ++++-------
 omniscidb/QueryEngine/DateTimeUtils.h |  4 +++-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/omniscidb/QueryEngine/CastIR.cpp b/omniscidb/QueryEngine/CastIR.cpp
index 3836b83..a5f984d 100644
--- a/omniscidb/QueryEngine/CastIR.cpp
+++ b/omniscidb/QueryEngine/CastIR.cpp
@@ -231,13 +231,10 @@ llvm::Value* CodeGenerator::codegenCastBetweenTimestamps(
   }
   const auto scale =
       hdk::ir::unitsPerSecond(operand_unit) / hdk::ir::unitsPerSecond(target_unit);
-  return target_type->nullable()
-             ? cgen_state_->emitCall("floor_div_nullable_lhs",
-                                     {ts_lv,
-                                      cgen_state_->llInt(static_cast<int64_t>(scale)),
-                                      cgen_state_->inlineIntNull(operand_type)})
-             : cgen_state_->ir_builder_.CreateSDiv(
-                   ts_lv, cgen_state_->llInt(static_cast<int64_t>(scale)));
+  return cgen_state_->emitCall("floor_div_nullable_lhs",
+                               {ts_lv,
+                                cgen_state_->llInt(static_cast<int64_t>(scale)),
+                                cgen_state_->inlineIntNull(operand_type)});
 }
 
 llvm::Value* CodeGenerator::codegenCastFromString(llvm::Value* operand_lv,
diff --git a/omniscidb/QueryEngine/DateTimeUtils.h b/omniscidb/QueryEngine/DateTimeUtils.h
index c4ea07b..6d376a2 100644
--- a/omniscidb/QueryEngine/DateTimeUtils.h
+++ b/omniscidb/QueryEngine/DateTimeUtils.h
@@ -251,7 +251,9 @@ constexpr inline int64_t get_datetime_scaled_epoch(int64_t epoch,
     }
     return scaled_epoch;
   } else {
-    return epoch / (new_scale / old_scale);
+    // Round down to be consistent with a run-time conversion of negative values.
+    const auto scale = new_scale / old_scale;
+    return epoch / scale - (epoch % scale < 0);
   }
 }
 
-- 
2.43.0


From 04b132a2cbe7b4a203d926c1ebe8d37d479d6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:39 +0000
Subject: [PATCH 38/40] fix: DECIMAL values of more than 15 digits were printed
 with wrong digits

---
 omniscidb/IR/Datum.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index 63f1fcd..04e13cd 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -435,11 +435,17 @@ std::string DatumToString(Datum d, const hdk::ir::Type* type) {
     case hdk::ir::Type::kDecimal: {
       CHECK_EQ(type->size(), 8);
       auto scale = type->as<hdk::ir::DecimalType>()->scale();
-      double v = (double)d.bigintval / pow(10, scale);
-      int size = snprintf(buf, buf_size, "%.*f", scale, v);
-      CHECK_LE(0, size) << v << ' ' << type->toString();
-      CHECK_LT(size_t(size), buf_size) << v << ' ' << type->toString();
-      return buf;
+      // Print digits of the unscaled value, a double cannot hold all of them.
+      const bool negative = d.bigintval < 0;
+      const auto unsigned_val = static_cast<uint64_t>(d.bigintval);
+      auto res = std::to_string(negative ? -unsigned_val : unsigned_val);
+      if (scale > 0) {
+        if (res.size() <= static_cast<size_t>(scale)) {
+          res.insert(0, scale + 1 - res.size(), '0');
+        }
+        res.insert(res.size() - scale, 1, '.');
+      }
+      return negative ? "-" + res : res;
     }
     case hdk::ir::Type::kInteger:
       switch (type->size()) {
-- 
2.43.0


From 8284997a1e18be056c27578e71b97423924396d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:05 +0000
Subject: [PATCH 39/40] fix: list each database of a merged schema provider
 once

---
 omniscidb/SchemaMgr/SchemaMgr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omniscidb/SchemaMgr/SchemaMgr.cpp b/omniscidb/SchemaMgr/SchemaMgr.cpp
index 4d209f4..68b2c60 100644
--- a/omniscidb/SchemaMgr/SchemaMgr.cpp
+++ b/omniscidb/SchemaMgr/SchemaMgr.cpp
@@ -9,8 +9,12 @@
 std::vector<int> SchemaMgr::listDatabases() const {
   std::vector<int> res;
   for (auto& pr : mgr_by_schema_id_) {
-    auto mgr_res = pr.second->listDatabases();
-    res.insert(res.end(), mgr_res.begin(), mgr_res.end());
+    // A provider of several schemas is registered for each of them.
+    for (int db_id : pr.second->listDatabases()) {
+      if (getSchemaId(db_id) == pr.first) {
+        res.push_back(db_id);
+      }
+    }
   }
   return res;
 }
-- 
2.43.0


From 47c8b256f4e385bfbc54341f5359bfa0d1741e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:05 +0000
Subject: [PATCH 40/40] fix: keep the cost model setting of the given
 configuration when options are parsed

---
 omniscidb/ConfigBuilder/ConfigBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/ConfigBuilder/ConfigBuilder.cpp b/omniscidb/ConfigBuilder/ConfigBuilder.cpp
index 3bf6b9c..7c87f0f 100644
--- a/omniscidb/ConfigBuilder/ConfigBuilder.cpp
+++ b/omniscidb/ConfigBuilder/ConfigBuilder.cpp
@@ -409,7 +409,8 @@ bool ConfigBuilder::parseCommandLineArgs(int argc,
 
   opt_desc.add_options()(
       "use-cost-model",
-      po::value<bool>(&config_->exec.enable_cost_model)->default_value(false),
+      po::value<bool>(&config_->exec.enable_cost_model)
+          ->default_value(config_->exec.enable_cost_model),
       "Use Cost Model for query execution when it is possible.");
 
   // opts.filter_pushdown
-- 
2.43.0

