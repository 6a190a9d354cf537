From 49b0f99d15413b923881c37e430417495e084d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:44 +0000
Subject: [PATCH 01/27] fix: keep ByteArrayInputStream position on refused seek
 and reject wrapped read ranges

---
 src/paimon/common/io/byte_array_input_stream.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index b98ab24..b5cff71 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -33,28 +33,32 @@ const char* ByteArrayInputStream::GetRawData() const {
 }
 
 Status ByteArrayInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t base = 0;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            position_ = offset;
             break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            position_ += offset;
+            base = position_;
             break;
         }
         case SeekOrigin::FS_SEEK_END: {
             PAIMON_ASSIGN_OR_RAISE(uint64_t length, Length());
-            position_ = static_cast<int64_t>(length) + offset;
+            base = static_cast<int64_t>(length);
             break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
-    if (position_ < 0 || position_ > static_cast<int64_t>(length_)) {
+    // a refused seek leaves the position unchanged
+    int64_t target = 0;
+    if (__builtin_add_overflow(base, offset, &target) || target < 0 ||
+        target > static_cast<int64_t>(length_)) {
         return Status::Invalid(
-            fmt::format("invalid seek, after seek, current pos {}, length {}", position_, length_));
+            fmt::format("invalid seek, after seek, current pos {}, length {}", target, length_));
     }
+    position_ = target;
     return Status::OK();
 }
 
@@ -71,7 +75,7 @@ Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size) {
 }
 
 Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    if (offset + static_cast<uint64_t>(size) > length_) {
+    if (offset > length_ || size > length_ - offset) {
         return Status::Invalid(
             fmt::format("ByteArrayInputStream assert boundary failed: need length {}, read offset "
                         "{}, exceed length {}",
-- 
2.43.0


From e28a7c3a2faca9c67ca9ef1a8d9bf8c73c8fd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:14 +0000
Subject: [PATCH 02/27] fix: make OffsetInputStream boundary checks 64-bit and
 keep position on failure

---
 src/paimon/common/io/offset_input_stream.cpp | 53 ++++++++++++--------
 src/paimon/common/io/offset_input_stream.h   |  3 +-
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 1382e6a..7b0403d 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -56,49 +56,50 @@ OffsetInputStream::OffsetInputStream(const std::shared_ptr<InputStream>& wrapped
     : wrapped_(wrapped), length_(length), offset_(offset) {}
 
 Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t base = 0;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            inner_position_ = offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            inner_position_ += offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR);
+            base = inner_position_;
+            break;
         }
         case SeekOrigin::FS_SEEK_END: {
-            inner_position_ = length_ + offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            base = length_;
+            break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
+    // a refused or failed seek leaves the position unchanged
+    int64_t target = 0;
+    if (__builtin_add_overflow(base, offset, &target)) {
+        return Status::Invalid(fmt::format(
+            "OffsetInputStream seek overflow: offset {} from inner pos {}", offset, base));
+    }
+    PAIMON_RETURN_NOT_OK(AssertBoundary(target));
+    PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset_ + target, SeekOrigin::FS_SEEK_SET));
+    inner_position_ = target;
     return Status::OK();
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size) {
-    PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_ + size));
-    inner_position_ += size;
-    return wrapped_->Read(buffer, size);
+    PAIMON_RETURN_NOT_OK(AssertRange(inner_position_, size));
+    PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_len, wrapped_->Read(buffer, size));
+    inner_position_ += actual_read_len;
+    return actual_read_len;
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    PAIMON_RETURN_NOT_OK(AssertBoundary(offset));
-    PAIMON_RETURN_NOT_OK(AssertBoundary(offset + size));
+    PAIMON_RETURN_NOT_OK(AssertRange(offset, size));
     return wrapped_->Read(buffer, size, offset_ + offset);
 }
 
 void OffsetInputStream::ReadAsync(char* buffer, uint32_t size, uint64_t offset,
                                   std::function<void(Status)>&& callback) {
-    auto status = AssertBoundary(offset);
-    if (!status.ok()) {
-        callback(status);
-        return;
-    }
-    status = AssertBoundary(offset + size);
+    auto status = AssertRange(offset, size);
     if (!status.ok()) {
         callback(status);
         return;
@@ -122,7 +123,7 @@ Result<uint64_t> OffsetInputStream::Length() const {
     return length_;
 }
 
-Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
+Status OffsetInputStream::AssertBoundary(int64_t inner_pos) const {
     if (inner_pos < 0 || inner_pos > length_) {
         return Status::Invalid(
             fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
@@ -131,4 +132,14 @@ Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
     return Status::OK();
 }
 
+Status OffsetInputStream::AssertRange(uint64_t inner_pos, uint32_t size) const {
+    auto length = static_cast<uint64_t>(length_);
+    if (inner_pos > length || size > length - inner_pos) {
+        return Status::Invalid(
+            fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
+                        inner_pos + size, length_));
+    }
+    return Status::OK();
+}
+
 }  // namespace paimon
diff --git a/src/paimon/common/io/offset_input_stream.h b/src/paimon/common/io/offset_input_stream.h
index 6316eec..bff6c6e 100644
--- a/src/paimon/common/io/offset_input_stream.h
+++ b/src/paimon/common/io/offset_input_stream.h
@@ -53,7 +53,8 @@ class PAIMON_EXPORT OffsetInputStream : public InputStream {
 
  private:
     OffsetInputStream(const std::shared_ptr<InputStream>& wrapped, int64_t length, int64_t offset);
-    Status AssertBoundary(int32_t inner_pos) const;
+    Status AssertBoundary(int64_t inner_pos) const;
+    Status AssertRange(uint64_t inner_pos, uint32_t size) const;
 
  private:
     std::shared_ptr<InputStream> wrapped_;
-- 
2.43.0


From e478d87999f59cd1a1196c60124da0ffbe28d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:14 +0000
Subject: [PATCH 03/27] fix: BufferedInputStream reports short wrapped reads
 instead of asserting

---
 src/paimon/common/io/buffered_input_stream.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/io/buffered_input_stream.cpp b/src/paimon/common/io/buffered_input_stream.cpp
index 7739b1d..9a6940f 100644
--- a/src/paimon/common/io/buffered_input_stream.cpp
+++ b/src/paimon/common/io/buffered_input_stream.cpp
@@ -19,6 +19,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstring>
+#include <limits>
 #include <utility>
 
 #include "fmt/format.h"
@@ -57,11 +58,19 @@ Result<int64_t> BufferedInputStream::GetPos() const {
 }
 
 Result<int32_t> BufferedInputStream::Read(char* buffer, uint32_t size) {
+    if (size > static_cast<uint32_t>(std::numeric_limits<int32_t>::max())) {
+        return Status::Invalid(
+            fmt::format("BufferedInputStream does not support read length {}", size));
+    }
     uint32_t actual_read_len = 0;
     while (actual_read_len < size) {
         PAIMON_ASSIGN_OR_RAISE(int32_t nread,
                                InnerRead(buffer + actual_read_len, size - actual_read_len));
-        assert(nread > 0);
+        if (nread <= 0) {
+            return Status::Invalid(fmt::format(
+                "read failed, no bytes available (may read eof), but expect read {} more bytes",
+                size - actual_read_len));
+        }
         actual_read_len += nread;
     }
     PAIMON_RETURN_NOT_OK(AssertReadLength(size, actual_read_len));
-- 
2.43.0


From e485511aff1b732d3aa05516816e02da1afb0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:33 +0000
Subject: [PATCH 04/27] fix: refuse strings longer than the two-byte length
 prefix instead of truncating

---
 src/paimon/common/io/data_output_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/io/data_output_stream.cpp b/src/paimon/common/io/data_output_stream.cpp
index 5252ece..9d1de75 100644
--- a/src/paimon/common/io/data_output_stream.cpp
+++ b/src/paimon/common/io/data_output_stream.cpp
@@ -17,6 +17,7 @@
 #include "paimon/common/io/data_output_stream.h"
 
 #include <cassert>
+#include <limits>
 #include <type_traits>
 
 #include "fmt/format.h"
@@ -54,6 +55,10 @@ Status DataOutputStream::WriteBytes(const std::shared_ptr<Bytes>& bytes) {
 }
 
 Status DataOutputStream::WriteString(const std::string& value) {
+    if (value.size() > std::numeric_limits<uint16_t>::max()) {
+        return Status::Invalid(
+            fmt::format("string length {} exceeds the two-byte length prefix", value.size()));
+    }
     uint16_t write_length = value.size();
     PAIMON_RETURN_NOT_OK(WriteValue<uint16_t>(write_length));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_write_length,
-- 
2.43.0


From dde230c123f6227781e6f7b87cf1d2d19c119e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:38 +0000
Subject: [PATCH 05/27] fix: keep memory pool statistics exact under concurrent
 and failing allocations

---
 src/paimon/common/memory/memory_pool.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index a0f3573..8ff7c8c 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -39,6 +39,13 @@ class MemoryPoolImpl : public MemoryPool {
     }
 
  protected:
+    void UpdateUsage(int64_t delta) {
+        int64_t usage = total_allocated_size.fetch_add(delta) + delta;
+        int64_t max_usage = max_allocated.load();
+        while (usage > max_usage && !max_allocated.compare_exchange_weak(max_usage, usage)) {
+        }
+    }
+
     std::atomic<int64_t> total_allocated_size = {0};
     std::atomic<int64_t> max_allocated = {0};
 };
@@ -50,16 +57,18 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
                        alignment == 0 ? DEFAULT_ALIGNMENT : alignment, size) != 0) {
         throw std::bad_alloc();
     }
-    total_allocated_size.fetch_add(size);
-    max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+    UpdateUsage(size);
     return memptr;
 }
 
 void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t alignment) {
     if (alignment == 0) {
         void* memptr = ::realloc(p, new_size);
-        total_allocated_size.fetch_add(new_size - old_size);
-        max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+        if (memptr == nullptr && new_size != 0) {
+            // the old block is still allocated
+            throw std::bad_alloc();
+        }
+        UpdateUsage(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
         return memptr;
     } else {
         if (p == nullptr) {
@@ -70,8 +79,7 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
             Free(p, old_size);
             return Malloc(0, alignment);
         } else if (new_size < old_size && old_size / 2 < new_size) {
-            total_allocated_size.fetch_add(new_size - old_size);
-            max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+            UpdateUsage(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
             // do not shrink to fit, when new size is not very small, to avoid memory copy
             return p;
         } else {
-- 
2.43.0


From 26e5b41aad9d60765cfa393dbddf593c3ff8e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:50 +0000
Subject: [PATCH 06/27] fix: row range merge and exclusion at the largest
 64-bit bound

---
 src/paimon/common/utils/range.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/range.cpp b/src/paimon/common/utils/range.cpp
index 42d360a..cb8e748 100644
--- a/src/paimon/common/utils/range.cpp
+++ b/src/paimon/common/utils/range.cpp
@@ -43,7 +43,7 @@ std::vector<Range> Range::SortAndMergeOverlap(const std::vector<Range>& ranges,
     for (size_t i = 1; i < sorted_ranges.size(); ++i) {
         Range next = sorted_ranges[i];
         // Check if current and next overlap (not just adjacent)
-        if (current.to + (adjacent ? 1 : 0) >= next.from) {
+        if (current.to >= next.from || (adjacent && current.to + 1 == next.from)) {
             // Merge: extend current range
             current = Range(current.from, std::max(current.to, next.to));
         } else {
@@ -125,10 +125,10 @@ std::vector<Range> Range::Exclude(const std::vector<Range>& ranges) const {
             result.emplace_back(current, intersect.value().from - 1);
         }
         // Move current position past the intersection
-        current = intersect.value().to + 1;
-        if (current > to) {
-            break;
+        if (intersect.value().to >= to) {
+            return result;
         }
+        current = intersect.value().to + 1;
     }
     // Add the remaining part after all exclusions (if any)
     if (current <= to) {
-- 
2.43.0


From 1fef706dd36e005d8db4da81709f2c1eb9c9c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:50 +0000
Subject: [PATCH 07/27] fix: compare bin weights without overflow

---
 src/paimon/common/utils/bin_packing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/common/utils/bin_packing.h b/src/paimon/common/utils/bin_packing.h
index 8dab7a4..0ac96ca 100644
--- a/src/paimon/common/utils/bin_packing.h
+++ b/src/paimon/common/utils/bin_packing.h
@@ -39,7 +39,7 @@ class BinPacking {
             int64_t weight = weight_func(item);
             // when get a much big item or total weight enough, we check the binItems size. If
             // greater than zero, we pack it
-            if (bin_weight + weight > target_weight && bin_items.size() > 0) {
+            if (weight > target_weight - bin_weight && bin_items.size() > 0) {
                 packed.emplace_back(std::move(bin_items));
                 bin_items.clear();
                 bin_weight = 0;
-- 
2.43.0


From dbb4378e4f1c56d560fa78a88dc74a1354298a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:50 +0000
Subject: [PATCH 08/27] fix: allow erasing a linked hash map entry by a
 reference to its own key

---
 src/paimon/common/utils/linked_hash_map.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/linked_hash_map.h b/src/paimon/common/utils/linked_hash_map.h
index 28300cc..c863089 100644
--- a/src/paimon/common/utils/linked_hash_map.h
+++ b/src/paimon/common/utils/linked_hash_map.h
@@ -70,12 +70,14 @@ class LinkedHashMap {
     }
 
     IteratorType erase(const K& key) {
-        if (!map_.count(key)) {
+        auto map_iter = map_.find(key);
+        if (map_iter == map_.end()) {
             return order_.end();
         }
-        auto iter = order_.erase(map_[key]);
-        map_.erase(key);
-        return iter;
+        // key may refer to the erased element, do not use it from here
+        auto order_iter = map_iter->second;
+        map_.erase(map_iter);
+        return order_.erase(order_iter);
     }
 
     IteratorType insert(const K& key, const V& value) {
-- 
2.43.0


From 37739c6d54811b69a2c099d09a58c80ff3ecd817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:50 +0000
Subject: [PATCH 09/27] fix: refuse bit-sliced index values below the declared
 minimum

---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 468ffb3..78a050f 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -256,6 +256,10 @@ Status BitSliceIndexRoaringBitmap::Appender::Append(int32_t rid, int64_t value)
         return Status::Invalid(
             fmt::format("value {} is too large for append to BitSliceIndexRoaringBitmap", value));
     }
+    if (value < bsi_->min_) {
+        return Status::Invalid(
+            fmt::format("value {} is too small for append to BitSliceIndexRoaringBitmap", value));
+    }
     if (bsi_->ebm_.Contains(rid)) {
         return Status::Invalid(
             fmt::format("rid {} is already exists for append to BitSliceIndexRoaringBitmap", rid));
-- 
2.43.0


From c56de97f2e9e46b5be1d5c12b8c9cb8ad4e0cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:51 +0000
Subject: [PATCH 10/27] fix: answer empty in-lists and not-in-lists of a file
 index instead of returning null

---
 src/paimon/common/file_index/file_index_reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/common/file_index/file_index_reader.cpp b/src/paimon/common/file_index/file_index_reader.cpp
index 7fd1814..73bfd63 100644
--- a/src/paimon/common/file_index/file_index_reader.cpp
+++ b/src/paimon/common/file_index/file_index_reader.cpp
@@ -68,6 +68,9 @@ Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitGreaterThan(const
 
 Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitIn(
     const std::vector<Literal>& literals) {
+    if (literals.empty()) {
+        return FileIndexResult::Skip();
+    }
     std::shared_ptr<FileIndexResult> file_index_result;
     for (const Literal& key : literals) {
         if (!file_index_result) {
@@ -82,6 +85,9 @@ Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitIn(
 
 Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitNotIn(
     const std::vector<Literal>& literals) {
+    if (literals.empty()) {
+        return FileIndexResult::Remain();
+    }
     std::shared_ptr<FileIndexResult> file_index_result;
     for (const Literal& key : literals) {
         if (!file_index_result) {
-- 
2.43.0


From 9ecd7a726b873bcb84efcdfe030806484aae8547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:04 +0000
Subject: [PATCH 11/27] fix: refuse blob descriptors whose uri length exceeds
 the data

---
 src/paimon/common/data/blob_descriptor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/data/blob_descriptor.cpp b/src/paimon/common/data/blob_descriptor.cpp
index d0189cd..52806b5 100644
--- a/src/paimon/common/data/blob_descriptor.cpp
+++ b/src/paimon/common/data/blob_descriptor.cpp
@@ -65,6 +65,10 @@ Result<std::unique_ptr<BlobDescriptor>> BlobDescriptor::Deserialize(const char*
             "Expecting BlobDescriptor version to be {}, but found {}.", CURRENT_VERSION, version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t uri_length, in.ReadValue<int32_t>());
+    PAIMON_ASSIGN_OR_RAISE(int64_t pos, in.GetPos());
+    if (uri_length < 0 || static_cast<uint64_t>(uri_length) > size - pos) {
+        return Status::Invalid(fmt::format("invalid uri length {} in BlobDescriptor", uri_length));
+    }
     std::string uri(uri_length, '\0');
     PAIMON_RETURN_NOT_OK(in.Read(uri.data(), uri.size()));
     PAIMON_ASSIGN_OR_RAISE(int64_t offset, in.ReadValue<int64_t>());
-- 
2.43.0


From 191557a82a11e91c655ac64758bf4114e3cf7fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:04 +0000
Subject: [PATCH 12/27] fix: refuse serialized index results whose bitmap
 length exceeds the data

---
 src/paimon/common/global_index/global_index_result.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/global_index/global_index_result.cpp b/src/paimon/common/global_index/global_index_result.cpp
index 061dc6f..d6265f7 100644
--- a/src/paimon/common/global_index/global_index_result.cpp
+++ b/src/paimon/common/global_index/global_index_result.cpp
@@ -113,6 +113,11 @@ Result<std::shared_ptr<GlobalIndexResult>> GlobalIndexResult::Deserialize(
         return Status::Invalid(fmt::format("invalid version {} for GlobalIndexResult", version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t bitmap_bytes_len, in.ReadValue<int32_t>());
+    PAIMON_ASSIGN_OR_RAISE(int64_t pos, in.GetPos());
+    if (bitmap_bytes_len < 0 || static_cast<size_t>(bitmap_bytes_len) > length - pos) {
+        return Status::Invalid(
+            fmt::format("invalid bitmap length {} for GlobalIndexResult", bitmap_bytes_len));
+    }
     auto bitmap_bytes = Bytes::AllocateBytes(bitmap_bytes_len, pool.get());
     PAIMON_RETURN_NOT_OK(in.ReadBytes(bitmap_bytes.get()));
     RoaringBitmap64 bitmap;
-- 
2.43.0


From 3b723c146744f65ac1b4c6c78bc562e730779a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:17 +0000
Subject: [PATCH 13/27] fix: refuse deletion file lists whose count exceeds the
 data

---
 src/paimon/core/table/source/deletion_file.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/core/table/source/deletion_file.h b/src/paimon/core/table/source/deletion_file.h
index f15d9ab..4a4d36e 100644
--- a/src/paimon/core/table/source/deletion_file.h
+++ b/src/paimon/core/table/source/deletion_file.h
@@ -95,6 +95,11 @@ struct DeletionFile {
         PAIMON_ASSIGN_OR_RAISE(char has_deletion_file, in->ReadValue<char>());
         if (has_deletion_file == static_cast<char>(1)) {
             PAIMON_ASSIGN_OR_RAISE(int32_t size, in->ReadValue<int32_t>());
+            PAIMON_ASSIGN_OR_RAISE(int64_t pos, in->GetPos());
+            PAIMON_ASSIGN_OR_RAISE(uint64_t length, in->Length());
+            if (size < 0 || static_cast<uint64_t>(size) > length - pos) {
+                return Status::Invalid(fmt::format("invalid deletion file count {}", size));
+            }
             files.reserve(size);
             for (int32_t i = 0; i < size; i++) {
                 std::optional<DeletionFile> file;
-- 
2.43.0


From a4555e62b71892c1ff7e4bf62cc49fe4cc11980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:17 +0000
Subject: [PATCH 14/27] fix: refuse bit-sliced indexes with an impossible
 number of slices

---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 78a050f..ffe9ca0 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -59,6 +59,10 @@ Result<std::shared_ptr<BitSliceIndexRoaringBitmap>> BitSliceIndexRoaringBitmap::
 
     // deserialize slices
     PAIMON_ASSIGN_OR_RAISE(int32_t slice_num, data_input_stream.ReadValue<int32_t>());
+    if (slice_num < 0 || slice_num > 64) {
+        return Status::Invalid(
+            fmt::format("deserialize bsi index fail, invalid slice number {}", slice_num));
+    }
     std::vector<RoaringBitmap32> slices;
     slices.reserve(slice_num);
     for (int32_t i = 0; i < slice_num; i++) {
-- 
2.43.0


From 786f54094d9d141409b2a7e0dac3ec47693294b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:17 +0000
Subject: [PATCH 15/27] fix: keep reading of 64-bit bitmaps inside the given
 bytes

---
 third_party/roaring_bitmap/roaring.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/third_party/roaring_bitmap/roaring.hh b/third_party/roaring_bitmap/roaring.hh
index ff0c17b..3cfd04f 100644
--- a/third_party/roaring_bitmap/roaring.hh
+++ b/third_party/roaring_bitmap/roaring.hh
@@ -2228,6 +2228,9 @@ public:
             Roaring read_var = Roaring::readSafe(buf, maxbytes);
             // forward buffer past the last Roaring Bitmap
             size_t tz = read_var.getSizeInBytes(true);
+            if (tz > maxbytes) {
+                ROARING_TERMINATE("ran out of bytes");
+            }
             buf += tz;
             maxbytes -= tz;
             result.emplaceOrInsert(key, std::move(read_var));
-- 
2.43.0


From de0235ca71c8639a9c5d775b4840133b252c89c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:47 +0000
Subject: [PATCH 16/27] fix: keep an error when a status is moved onto itself

---
 include/paimon/status.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/paimon/status.h b/include/paimon/status.h
index 2de31a7..dc543a2 100644
--- a/include/paimon/status.h
+++ b/include/paimon/status.h
@@ -347,7 +347,9 @@ Status::Status(Status&& s) noexcept : state_(s.state_) {
 }
 
 Status& Status::operator=(Status&& s) noexcept {
-    MoveFrom(s);
+    if (this != &s) {
+        MoveFrom(s);
+    }
     return *this;
 }
 
-- 
2.43.0


From bf6d6a8587820adae6d3c6b7087d7424a815e405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:47 +0000
Subject: [PATCH 17/27] fix: remove the data race on first use of a singleton

---
 src/paimon/common/factories/singleton.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/factories/singleton.cpp b/src/paimon/common/factories/singleton.cpp
index a973225..32a80f1 100644
--- a/src/paimon/common/factories/singleton.cpp
+++ b/src/paimon/common/factories/singleton.cpp
@@ -19,6 +19,7 @@
 
 #include "paimon/factories/singleton.h"
 
+#include <atomic>
 #include <mutex>
 
 #include "paimon/common/factories/io_hook.h"
@@ -28,15 +29,18 @@ namespace paimon {
 
 template <typename T, typename InstPolicy>
 T* Singleton<T, InstPolicy>::GetInstance() {
-    static T* ptr;
+    static std::atomic<T*> ptr{nullptr};
     static std::mutex mutex;
-    if (PAIMON_UNLIKELY(!ptr)) {
+    T* instance = ptr.load(std::memory_order_acquire);
+    if (PAIMON_UNLIKELY(!instance)) {
         std::lock_guard<std::mutex> lg(mutex);
-        if (!ptr) {
-            InstPolicy::Create(ptr);
+        instance = ptr.load(std::memory_order_relaxed);
+        if (!instance) {
+            InstPolicy::Create(instance);
+            ptr.store(instance, std::memory_order_release);
         }
     }
-    return const_cast<T*>(ptr);
+    return instance;
 }
 
 template class Singleton<FactoryCreator>;
-- 
2.43.0


From 60242bd35d941fd1639c17120d3b4909cf1ba419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:11 +0000
Subject: [PATCH 18/27] fix: report directory read errors when listing a local
 directory

A failing readdir was taken as the end of the directory, so a listing
could silently miss files.
---
 src/paimon/fs/local/local_file.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/paimon/fs/local/local_file.cpp b/src/paimon/fs/local/local_file.cpp
index c9a1381..f256296 100644
--- a/src/paimon/fs/local/local_file.cpp
+++ b/src/paimon/fs/local/local_file.cpp
@@ -83,11 +83,20 @@ Status LocalFile::List(std::vector<std::string>* file_list) const {
             fmt::format("list path '{}' fail, ec: {}", path_, std::strerror(cur_errno)));
     }
 
+    errno = 0;
     while ((ep = readdir(dp)) != nullptr) {
         if (strcmp(ep->d_name, ".") == 0 || strcmp(ep->d_name, "..") == 0) {
             continue;
         }
         file_list->push_back(ep->d_name);
+        errno = 0;
+    }
+    if (errno != 0) {
+        int32_t cur_errno = errno;
+        closedir(dp);
+        file_list->clear();
+        return Status::IOError(
+            fmt::format("list path '{}' fail, ec: {}", path_, std::strerror(cur_errno)));
     }
     if (closedir(dp) < 0) {
         file_list->clear();
-- 
2.43.0


From 008b5e8777dd2a632f4be9a947ea2403b32de9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:11 +0000
Subject: [PATCH 19/27] fix: hold the rename lock across the existence check
 and the rename

Two threads storing to the same path could both pass the check, so the
second one replaced what the first had already published.
---
 src/paimon/fs/local/local_file_system.cpp | 3 +++
 src/paimon/fs/local/local_file_system.h   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 07a3fe3..87914d7 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -31,6 +31,8 @@
 
 namespace paimon {
 
+std::mutex LocalFileSystem::RENAME_LOCK;
+
 Result<LocalFile> LocalFileSystem::ToFile(const std::string& path_string) const {
     // local file system does not support path_string with scheme, e.g., "file:/tmp" will be
     // rewritten to "/tmp"
@@ -205,6 +207,7 @@ Status LocalFileSystem::Delete(const LocalFile& f, bool recursive) const {
 }
 
 Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) const {
+    std::lock_guard<std::mutex> lock(RENAME_LOCK);
     std::string err_msg = fmt::format("rename '{}' to '{}' failed, because: ", src, dst);
     PAIMON_ASSIGN_OR_RAISE(bool is_src_exist, Exists(src));
     if (!is_src_exist) {
diff --git a/src/paimon/fs/local/local_file_system.h b/src/paimon/fs/local/local_file_system.h
index 9ab4bb1..d259b51 100644
--- a/src/paimon/fs/local/local_file_system.h
+++ b/src/paimon/fs/local/local_file_system.h
@@ -59,7 +59,7 @@ class LocalFileSystem : public FileSystem {
 
  private:
     // the lock to ensure atomic renaming
-    static const std::mutex RENAME_LOCK;
+    static std::mutex RENAME_LOCK;
 
     Status Delete(const LocalFile& f, bool recursive = true) const;
     std::string GetParentPath(const std::string& path) const;
-- 
2.43.0


From cf1093d0d359bf5bedd804a2b9d0c3818e3c3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:11:11 +0000
Subject: [PATCH 20/27] fix: rename by local path when a path is given with a
 scheme

The other operations strip "file:", the rename call itself did not, so
renames and atomic stores of such paths always failed.
---
 src/paimon/fs/local/local_file_system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 87914d7..0ce279e 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -227,7 +227,7 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src.c_str(), dst.c_str()) != 0) {
+    if (::rename(src_file.GetAbsolutePath().c_str(), dst_file.GetAbsolutePath().c_str()) != 0) {
         int32_t cur_errno = errno;
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
-- 
2.43.0


From 081d9033a9ae6e2b14c09582a5d9a0712875b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:40 +0000
Subject: [PATCH 21/27] fix: partial update returns no row for a key without
 any added record

The sequence number and delete flag of the previous key were kept by Reset,
and Add cleared the delete flag for ignored retractions. A key with only
retractions was returned as an inserted row of nulls.
---
 .../core/mergetree/compact/partial_update_merge_function.cpp   | 2 +-
 .../core/mergetree/compact/partial_update_merge_function.h     | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index 70f9439..1ff615d 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -270,7 +270,6 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
     // refresh key object to avoid reference overwritten
     KeyValue kv = std::move(moved_kv);
     current_key_ = kv.key;
-    current_delete_row_ = false;
 
     if (kv.value_kind->IsRetract()) {
         // In 0.7- versions, the delete records might be written into data file even when
@@ -297,6 +296,7 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
             "receiving delete records; 3. Configure sequence-group to retract partial "
             "columns.");
     }
+    current_delete_row_ = false;
     last_seq_num_ = kv.sequence_number;
     if (field_comparators_.empty()) {
         UpdateNonNullFields(std::move(kv));
diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.h b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
index fb78abe..c68d13e 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.h
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
@@ -69,6 +69,9 @@ class PartialUpdateMergeFunction : public MergeFunction {
 
     void Reset() override {
         current_key_.reset();
+        last_seq_num_ = KeyValue::UNKNOWN_SEQUENCE;
+        // there is no row before the first add record
+        current_delete_row_ = true;
         row_ = std::make_unique<GenericRow>(getters_.size());
         for (auto& [_, agg] : field_aggregators_) {
             assert(agg);
-- 
2.43.0


From 5d998fd8f7473d6ee886ae64f63408265911bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:40 +0000
Subject: [PATCH 22/27] fix: older records keep the first value when they are
 aggregated in reverse

The first_value and first_non_null_value aggregations used the default
reversed order, so an older null record replaced the first value. The
ignore-retract wrapper did not forward the reversed aggregation.
---
 .../compact/aggregate/field_first_non_null_value_agg.h | 10 ++++++++++
 .../compact/aggregate/field_first_value_agg.h          |  7 +++++++
 .../compact/aggregate/field_ignore_retract_agg.h       |  5 +++++
 3 files changed, 22 insertions(+)

diff --git a/src/paimon/core/mergetree/compact/aggregate/field_first_non_null_value_agg.h b/src/paimon/core/mergetree/compact/aggregate/field_first_non_null_value_agg.h
index 611ad2b..aa79c86 100644
--- a/src/paimon/core/mergetree/compact/aggregate/field_first_non_null_value_agg.h
+++ b/src/paimon/core/mergetree/compact/aggregate/field_first_non_null_value_agg.h
@@ -41,6 +41,16 @@ class FieldFirstNonNullValueAgg : public FieldAggregator {
         return accumulator;
     }
 
+    /// an older input comes before the accumulated values
+    VariantType AggReversed(const VariantType& accumulator,
+                            const VariantType& input_field) override {
+        if (DataDefine::IsVariantNull(input_field)) {
+            return accumulator;
+        }
+        initialized_ = true;
+        return input_field;
+    }
+
     void Reset() override {
         initialized_ = false;
     }
diff --git a/src/paimon/core/mergetree/compact/aggregate/field_first_value_agg.h b/src/paimon/core/mergetree/compact/aggregate/field_first_value_agg.h
index d5fd4dd..a05763c 100644
--- a/src/paimon/core/mergetree/compact/aggregate/field_first_value_agg.h
+++ b/src/paimon/core/mergetree/compact/aggregate/field_first_value_agg.h
@@ -41,6 +41,13 @@ class FieldFirstValueAgg : public FieldAggregator {
         return accumulator;
     }
 
+    /// an older input comes before the accumulated values
+    VariantType AggReversed(const VariantType& accumulator,
+                            const VariantType& input_field) override {
+        initialized_ = true;
+        return input_field;
+    }
+
     void Reset() override {
         initialized_ = false;
     }
diff --git a/src/paimon/core/mergetree/compact/aggregate/field_ignore_retract_agg.h b/src/paimon/core/mergetree/compact/aggregate/field_ignore_retract_agg.h
index fe41d82..deef119 100644
--- a/src/paimon/core/mergetree/compact/aggregate/field_ignore_retract_agg.h
+++ b/src/paimon/core/mergetree/compact/aggregate/field_ignore_retract_agg.h
@@ -34,6 +34,11 @@ class FieldIgnoreRetractAgg : public FieldAggregator {
         return agg_->Agg(accumulator, input_field);
     }
 
+    VariantType AggReversed(const VariantType& accumulator,
+                            const VariantType& input_field) override {
+        return agg_->AggReversed(accumulator, input_field);
+    }
+
     Result<VariantType> Retract(const VariantType& accumulator,
                                 const VariantType& input_field) const override {
         return accumulator;
-- 
2.43.0


From 14b9ce4a529c41032c6abb78412e68b3f42d1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:40 +0000
Subject: [PATCH 23/27] fix: comparing statistics with a null literal does not
 need a null count

Without a null count the comparison failed with an error although the
predicate is false for every row.
---
 .../common/predicate/null_false_leaf_binary_function.h   | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/predicate/null_false_leaf_binary_function.h b/src/paimon/common/predicate/null_false_leaf_binary_function.h
index 8bd96f9..4974d96 100644
--- a/src/paimon/common/predicate/null_false_leaf_binary_function.h
+++ b/src/paimon/common/predicate/null_false_leaf_binary_function.h
@@ -66,10 +66,11 @@ class NullFalseLeafBinaryFunction : public LeafFunction {
         if (literals.size() < LITERAL_LIMIT) {
             return Status::Invalid("NullFalseLeafBinaryFunction needs single literal for field");
         }
-        if (null_count != std::nullopt) {
-            if (row_count == null_count.value() || literals[0].IsNull()) {
-                return false;
-            }
+        if (literals[0].IsNull()) {
+            return false;
+        }
+        if (null_count != std::nullopt && row_count == null_count.value()) {
+            return false;
         }
         return Test(row_count, min_value, max_value, null_count, literals[0]);
     }
-- 
2.43.0


From ef7c50e5f0d15f472d926104b8383a54687007ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:39 +0000
Subject: [PATCH 24/27] fix: order NaN consistently when comparing rows

NaN compared greater than every value including itself, in both
directions, so sorting and merging rows with NaN had no defined order.
It is now equal to itself and larger than any other value.
---
 src/paimon/core/utils/fields_comparator.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/utils/fields_comparator.cpp b/src/paimon/core/utils/fields_comparator.cpp
index 4b18ec2..5355375 100644
--- a/src/paimon/core/utils/fields_comparator.cpp
+++ b/src/paimon/core/utils/fields_comparator.cpp
@@ -16,6 +16,7 @@
 
 #include "paimon/core/utils/fields_comparator.h"
 
+#include <cmath>
 #include <cstddef>
 #include <string>
 
@@ -31,6 +32,17 @@
 #include "paimon/status.h"
 
 namespace paimon {
+namespace {
+// NaN is equal to itself and larger than any other value, otherwise there is no total order.
+template <typename T>
+int32_t CompareFloatingPoint(T lhs, T rhs) {
+    if (std::isnan(lhs) || std::isnan(rhs)) {
+        return static_cast<int32_t>(std::isnan(lhs)) - static_cast<int32_t>(std::isnan(rhs));
+    }
+    return lhs == rhs ? 0 : (lhs < rhs ? -1 : 1);
+}
+}  // namespace
+
 Result<std::unique_ptr<FieldsComparator>> FieldsComparator::Create(
     const std::vector<DataField>& input_data_field, bool is_ascending_order, bool use_view) {
     std::vector<int32_t> sort_fields;
@@ -130,14 +142,14 @@ Result<FieldsComparator::FieldComparatorFunc> FieldsComparator::CompareField(
                 [field_idx](const InternalRow& lhs, const InternalRow& rhs) -> int32_t {
                     float lvalue = lhs.GetFloat(field_idx);
                     float rvalue = rhs.GetFloat(field_idx);
-                    return lvalue == rvalue ? 0 : (lvalue < rvalue ? -1 : 1);
+                    return CompareFloatingPoint(lvalue, rvalue);
                 });
         case arrow::Type::type::DOUBLE:
             return FieldsComparator::FieldComparatorFunc(
                 [field_idx](const InternalRow& lhs, const InternalRow& rhs) -> int32_t {
                     double lvalue = lhs.GetDouble(field_idx);
                     double rvalue = rhs.GetDouble(field_idx);
-                    return lvalue == rvalue ? 0 : (lvalue < rvalue ? -1 : 1);
+                    return CompareFloatingPoint(lvalue, rvalue);
                 });
         case arrow::Type::type::STRING: {
             if (use_view) {
-- 
2.43.0


From ac550ca18cb520e0b426b025c3acdec60b124fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:39 +0000
Subject: [PATCH 25/27] fix: do not trust a latest hint naming a snapshot that
 is gone

A stale or torn LATEST file named an expired snapshot whose successor
does not exist either, so it was returned as the latest snapshot. The
directory is listed in that case.
---
 src/paimon/core/utils/snapshot_manager.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/paimon/core/utils/snapshot_manager.cpp b/src/paimon/core/utils/snapshot_manager.cpp
index fc5e2cc..24570d2 100644
--- a/src/paimon/core/utils/snapshot_manager.cpp
+++ b/src/paimon/core/utils/snapshot_manager.cpp
@@ -142,11 +142,21 @@ Result<std::optional<int64_t>> SnapshotManager::FindLatest(
         std::string path = path_func(next_snapshot);
         PAIMON_ASSIGN_OR_RAISE(bool is_exist, fs_->Exists(path));
         if (!is_exist) {
-            return snapshot_id;
+            // a stale or torn hint may refer to a snapshot which does not exist any more
+            PAIMON_ASSIGN_OR_RAISE(bool is_hint_exist, fs_->Exists(path_func(snapshot_id.value())));
+            if (is_hint_exist) {
+                return snapshot_id;
+            }
         }
     }
-    return FindByListFiles([](int64_t lhs, int64_t rhs) -> int64_t { return std::max(lhs, rhs); },
-                           dir, prefix);
+    PAIMON_ASSIGN_OR_RAISE(
+        std::optional<int64_t> listed_id,
+        FindByListFiles([](int64_t lhs, int64_t rhs) -> int64_t { return std::max(lhs, rhs); }, dir,
+                        prefix));
+    if (listed_id == std::nullopt && snapshot_id != std::nullopt && snapshot_id.value() > 0) {
+        return snapshot_id;
+    }
+    return listed_id;
 }
 
 Result<std::optional<int64_t>> SnapshotManager::FindByListFiles(
-- 
2.43.0


From 111d63a7a9b70eda6da954f08815370721f938e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:51:11 +0000
Subject: [PATCH 26/27] fix: assign row ids from scratch when a commit is
 retried

The row id and sequence number were written into the file metadata shared
with the caller, so a retry after losing the race for a snapshot kept the
row ids of the lost attempt and two commits ended up with the same ids.
---
 src/paimon/core/operation/file_store_commit_impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/core/operation/file_store_commit_impl.cpp b/src/paimon/core/operation/file_store_commit_impl.cpp
index 4c32da3..aa88570 100644
--- a/src/paimon/core/operation/file_store_commit_impl.cpp
+++ b/src/paimon/core/operation/file_store_commit_impl.cpp
@@ -583,6 +583,12 @@ Result<bool> FileStoreCommitImpl::TryCommitOnce(
     PAIMON_ASSIGN_OR_RAISE(base_manifest_list, manifest_list_->Write(merge_after_manifests));
 
     if (options_.RowTrackingEnabled()) {
+        // the file metas are shared with the caller, a retry must assign row ids from scratch
+        for (auto& entry : delta_files) {
+            entry = ManifestEntry(entry.Kind(), entry.Partition(), entry.Bucket(),
+                                  entry.TotalBuckets(),
+                                  std::make_shared<DataFileMeta>(*entry.File()));
+        }
         // assigned snapshot id to delta files
         AssignSnapshotId(new_snapshot_id, &delta_files);
         // assign row id for new files
-- 
2.43.0


From f5bc9d8001b5afbe029f386f091817fdb4eaac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:39:37 +0000
Subject: [PATCH 27/27] fix: do not clean orphan files when tags or branches
 cannot be listed

A failing listing of the tag or branch directory was taken for an empty
one, so files only a tag or branch needs could be deleted.
---
 .../core/operation/orphan_files_cleaner_impl.cpp     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
index 7473472..78737d9 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
@@ -34,6 +34,7 @@
 #include "paimon/core/manifest/manifest_list.h"
 #include "paimon/core/snapshot.h"
 #include "paimon/core/utils/file_store_path_factory.h"
+#include "paimon/core/utils/file_utils.h"
 #include "paimon/core/utils/snapshot_manager.h"
 #include "paimon/status.h"
 
@@ -83,10 +84,17 @@ bool OrphanFilesCleanerImpl::SupportToClean(const std::string& file_name) {
 }
 
 Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
-    if (!MinimalTryBestListingDirs(PathUtil::JoinPath(root_path_, "tag")).empty()) {
+    // files of tags and branches are unknown here, so failing to list them must not pass as none
+    std::vector<std::unique_ptr<BasicFileStatus>> tags;
+    PAIMON_RETURN_NOT_OK(FileUtils::ListVersionedFileStatus(
+        fs_, PathUtil::JoinPath(root_path_, "tag"), /*prefix=*/"", &tags));
+    if (!tags.empty()) {
         return Status::NotImplemented("OrphanFilesCleaner do not support cleaning table with tag");
     }
-    if (!MinimalTryBestListingDirs(PathUtil::JoinPath(root_path_, "branch")).empty()) {
+    std::vector<std::unique_ptr<BasicFileStatus>> branches;
+    PAIMON_RETURN_NOT_OK(FileUtils::ListVersionedFileStatus(
+        fs_, PathUtil::JoinPath(root_path_, "branch"), /*prefix=*/"", &branches));
+    if (!branches.empty()) {
         return Status::NotImplemented(
             "OrphanFilesCleaner do not support cleaning table with branch");
     }
-- 
2.43.0

