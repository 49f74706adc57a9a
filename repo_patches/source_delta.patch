From 7fbdf2745a0d180bfdec9ae131e3ffe49a1ff29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 01/46] fix: MemoryMap::insert(Key, const Value&) reports
 whether the entry was added

The copying overload inverted the flag: it returned false for a new entry and true
for an existing one, contrary to its documentation and to the emplacing overload.
---
 src/umpire/util/MemoryMap.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 4c461d8..1cc7242 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -70,10 +70,7 @@ std::pair<typename MemoryMap<V>::Iterator, bool> MemoryMap<V>::insert(Key ptr, c
 {
   UMPIRE_LOG(Debug, "ptr = " << ptr);
 
-  auto it_pair = doInsert(ptr, val);
-  it_pair.second = !it_pair.second;
-
-  return it_pair;
+  return doInsert(ptr, val);
 }
 
 template <typename V>
-- 
2.43.0


From 7c3a7dca6746b05700e0cc2a4fde07e7d076a420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 02/46] fix: MemoryMap iterator increment always seeks to its
 own entry

An iterator copied to the address of an earlier, destroyed iterator was taken to be the
one that last positioned the array and stepped from the wrong entry.
---
 src/umpire/util/MemoryMap.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/MemoryMap.inl b/src/umpire/util/MemoryMap.inl
index 1cc7242..38c2ba0 100644
--- a/src/umpire/util/MemoryMap.inl
+++ b/src/umpire/util/MemoryMap.inl
@@ -266,8 +266,9 @@ template <typename V>
 template <bool Const>
 typename MemoryMap<V>::template Iterator_<Const>& MemoryMap<V>::Iterator_<Const>::operator++()
 {
-  // Check whether this object was not the last to set the internal judy state
-  if (m_pair.first && m_map->m_oper != reinterpret_cast<uintptr_t>(this)) {
+  // The internal judy state may have been set by another operation. An address comparison with m_oper
+  // cannot tell: a copied or reassigned iterator may live where the last one to set that state did.
+  if (m_pair.first) {
     // Seek m_array internal position
     judy_slot(m_map->m_array, reinterpret_cast<const unsigned char*>(&m_pair.first), judy_max);
   }
-- 
2.43.0


From c8f7d958800793705d097be07fc0076fcfb29d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 03/46] fix: FixedMallocPool::deallocate stores the link index
 in its own width

With the free list empty it stored a std::size_t where an unsigned int is read, which
overwrote the neighbouring live object for objects smaller than 8 bytes.
---
 src/umpire/util/FixedMallocPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/FixedMallocPool.cpp b/src/umpire/util/FixedMallocPool.cpp
index f6070cb..a74597a 100644
--- a/src/umpire/util/FixedMallocPool.cpp
+++ b/src/umpire/util/FixedMallocPool.cpp
@@ -112,7 +112,7 @@ void FixedMallocPool::deallocate(void* ptr)
         *reinterpret_cast<unsigned int*>(ptr) = index_from_addr(p, p.next);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       } else {
-        *reinterpret_cast<std::size_t*>(ptr) = m_obj_per_pool;
+        *reinterpret_cast<unsigned int*>(ptr) = static_cast<unsigned int>(m_obj_per_pool);
         p.next = reinterpret_cast<unsigned char*>(ptr);
       }
       ++p.num_free;
-- 
2.43.0


From 42dce9e30cc368fa723eaa49a680ffd3432c9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 04/46] fix: OutputBuffer starts with no streams attached

The defaulted constructor left both stream buffers indeterminate, and the destructor,
sync and overflow use them.
---
 src/umpire/util/OutputBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/util/OutputBuffer.hpp b/src/umpire/util/OutputBuffer.hpp
index 13bd40f..ef62364 100644
--- a/src/umpire/util/OutputBuffer.hpp
+++ b/src/umpire/util/OutputBuffer.hpp
@@ -25,8 +25,8 @@ class OutputBuffer : public std::streambuf {
   int sync() override;
 
  private:
-  std::streambuf* d_console_stream;
-  std::streambuf* d_file_stream;
+  std::streambuf* d_console_stream{nullptr};
+  std::streambuf* d_file_stream{nullptr};
 };
 
 } // end of namespace util
-- 
2.43.0


From 71e5323b1a44869994ebf544a66ddc402268fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:35 +0000
Subject: [PATCH 05/46] fix: relative_fragmentation advances through the
 records

The loop never advanced, so it did not end for two or more records, and an empty vector
was iterated past its end.
---
 src/umpire/util/allocation_statistics.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/umpire/util/allocation_statistics.cpp b/src/umpire/util/allocation_statistics.cpp
index 20f48b1..0ab16dd 100644
--- a/src/umpire/util/allocation_statistics.cpp
+++ b/src/umpire/util/allocation_statistics.cpp
@@ -15,6 +15,10 @@ namespace util {
 
 float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
 {
+  if (recs.empty()) {
+    return 0.0f;
+  }
+
   auto r1 = recs.begin();
   auto r2 = recs.begin();
   ++r2;
@@ -24,6 +28,8 @@ float relative_fragmentation(std::vector<util::AllocationRecord>& recs)
     const std::size_t free_space = reinterpret_cast<char*>(r2->ptr) - (reinterpret_cast<char*>(r1->ptr) + r1->size);
     largest_free_space = std::max(largest_free_space, free_space);
     total_free_space += free_space;
+    r1 = r2;
+    ++r2;
   }
 
   return 1.0f - static_cast<float>(largest_free_space) / (total_free_space + std::numeric_limits<float>::epsilon());
-- 
2.43.0


From 307cd4382c1c95e348a2639cebad7efd1881306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:51 +0000
Subject: [PATCH 06/46] fix: a failed allocation no longer counts in its
 strategy's statistics

---
 src/umpire/strategy/AllocationStrategy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/AllocationStrategy.cpp b/src/umpire/strategy/AllocationStrategy.cpp
index e11504a..c94bd96 100644
--- a/src/umpire/strategy/AllocationStrategy.cpp
+++ b/src/umpire/strategy/AllocationStrategy.cpp
@@ -19,6 +19,8 @@ AllocationStrategy::AllocationStrategy(const std::string& name, int id, Allocati
 
 void* AllocationStrategy::allocate_internal(std::size_t bytes)
 {
+  void* ptr = allocate(bytes);
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -26,7 +28,7 @@ void* AllocationStrategy::allocate_internal(std::size_t bytes)
     m_high_watermark = m_current_size;
   }
 
-  return allocate(bytes);
+  return ptr;
 }
 
 void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(name), std::size_t bytes)
@@ -36,6 +38,8 @@ void* AllocationStrategy::allocate_named(const std::string& UMPIRE_UNUSED_ARG(na
 
 void* AllocationStrategy::allocate_named_internal(const std::string& name, std::size_t bytes)
 {
+  void* ptr = allocate_named(name, bytes);
+
   m_current_size += bytes;
   m_allocation_count++;
 
@@ -43,7 +47,7 @@ void* AllocationStrategy::allocate_named_internal(const std::string& name, std::
     m_high_watermark = m_current_size;
   }
 
-  return allocate_named(name, bytes);
+  return ptr;
 }
 
 void AllocationStrategy::deallocate_internal(void* ptr, std::size_t size)
-- 
2.43.0


From 0983fd1515a05c8fc69b9ef4f77b237ba5f36b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:51 +0000
Subject: [PATCH 07/46] fix: NamingShim hands the size on when it deallocates

---
 src/umpire/strategy/NamingShim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/NamingShim.cpp b/src/umpire/strategy/NamingShim.cpp
index 1a9dfb0..812abfe 100644
--- a/src/umpire/strategy/NamingShim.cpp
+++ b/src/umpire/strategy/NamingShim.cpp
@@ -30,9 +30,9 @@ void* NamingShim::allocate(std::size_t bytes)
   return m_allocator->allocate_named_internal(name, bytes);
 }
 
-void NamingShim::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(size))
+void NamingShim::deallocate(void* ptr, std::size_t size)
 {
-  m_allocator->deallocate_internal(ptr);
+  m_allocator->deallocate_internal(ptr, size);
 }
 
 Platform NamingShim::getPlatform() noexcept
-- 
2.43.0


From f6aded66945f86f883f7d7ea1dae44be0236800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:51 +0000
Subject: [PATCH 08/46] fix: SizeLimiter counts only allocations that succeeded

---
 src/umpire/strategy/SizeLimiter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/SizeLimiter.cpp b/src/umpire/strategy/SizeLimiter.cpp
index 9187b50..eb4630b 100644
--- a/src/umpire/strategy/SizeLimiter.cpp
+++ b/src/umpire/strategy/SizeLimiter.cpp
@@ -22,14 +22,14 @@ SizeLimiter::SizeLimiter(const std::string& name, int id, Allocator allocator, s
 
 void* SizeLimiter::allocate(std::size_t bytes)
 {
-  m_total_size += bytes;
-
-  if (m_total_size > m_size_limit) {
-    m_total_size -= bytes;
+  if (bytes > m_size_limit - m_total_size) {
     UMPIRE_ERROR(out_of_memory_error, "Size limit exceeded.");
   }
 
-  return m_allocator->allocate_internal(bytes);
+  void* ptr = m_allocator->allocate_internal(bytes);
+  m_total_size += bytes;
+
+  return ptr;
 }
 
 void SizeLimiter::deallocate(void* ptr, std::size_t size)
-- 
2.43.0


From 2dd1f50cad302d54c0e2e76dff8dab9a073d7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:51 +0000
Subject: [PATCH 09/46] fix: named allocations report allocator and size when
 out of memory

---
 src/umpire/Allocator.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/umpire/Allocator.inl b/src/umpire/Allocator.inl
index 1b3e7c7..c8e4038 100644
--- a/src/umpire/Allocator.inl
+++ b/src/umpire/Allocator.inl
@@ -76,7 +76,13 @@ inline void* Allocator::do_named_allocate(const std::string& name, std::size_t b
   if (0 == bytes) {
     ret = allocateNull();
   } else {
-    ret = m_allocator->allocate_named(name, bytes);
+    try {
+      ret = m_allocator->allocate_named(name, bytes);
+    } catch (umpire::out_of_memory_error& e) {
+      e.set_allocator_id(this->getId());
+      e.set_requested_size(bytes);
+      throw;
+    }
   }
 
   if (m_tracking) {
-- 
2.43.0


From 966b86a0a3b331a616ff7f57850575f0f30282c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:05 +0000
Subject: [PATCH 10/46] fix: guard the zero-byte pool all allocators share with
 a mutex

---
 src/umpire/strategy/mixins/AllocateNull.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/umpire/strategy/mixins/AllocateNull.cpp b/src/umpire/strategy/mixins/AllocateNull.cpp
index 12fa1f3..1993f0f 100644
--- a/src/umpire/strategy/mixins/AllocateNull.cpp
+++ b/src/umpire/strategy/mixins/AllocateNull.cpp
@@ -10,10 +10,19 @@
 #include "umpire/strategy/FixedPool.hpp"
 #include "umpire/util/Macros.hpp"
 
+#include <mutex>
+
 namespace umpire {
 namespace strategy {
 namespace mixins {
 
+namespace {
+
+// The zero-byte pool is shared by all Allocators, also by those used from different threads
+std::mutex zero_byte_pool_mutex;
+
+} // end of anonymous namespace
+
 AllocateNull::AllocateNull() :
   m_zero_byte_pool{nullptr}
 {
@@ -21,6 +30,8 @@ AllocateNull::AllocateNull() :
 
 void* AllocateNull::allocateNull()
 {
+  std::lock_guard<std::mutex> lock(zero_byte_pool_mutex);
+
   if (!m_zero_byte_pool)
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
@@ -30,6 +41,8 @@ void* AllocateNull::allocateNull()
 
 bool AllocateNull::deallocateNull(void* ptr)
 {
+  std::lock_guard<std::mutex> lock(zero_byte_pool_mutex);
+
   if (!m_zero_byte_pool)
     m_zero_byte_pool = static_cast<FixedPool*>(
           ResourceManager::getInstance().getZeroByteAllocator());
-- 
2.43.0


From d66ca8883b0c1f2555ae60a4ef3e5d1a3fcd5749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:34 +0000
Subject: [PATCH 11/46] fix: FixedPool::release takes what it gives back out of
 the actual size

---
 src/umpire/strategy/FixedPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 9c080d0..7eb40df 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -180,6 +180,7 @@ void FixedPool::release()
     if (m_obj_per_pool == p.num_avail) {
       p.strategy->deallocate_internal(p.data, m_data_bytes);
       std::free(p.avail);
+      m_actual_bytes -= m_avail_bytes + m_data_bytes;
     }
   }
   m_pool.erase(std::remove_if(m_pool.begin(), m_pool.end(), [&](Pool& p) { return m_obj_per_pool == p.num_avail; }),
-- 
2.43.0


From 0f4173cbd5e381ff24f97805f9e7e31829d57d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:34 +0000
Subject: [PATCH 12/46] fix: SlotPool does not lose a slot when the allocation
 for it fails

---
 src/umpire/strategy/SlotPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index 712236a..cf4e3e1 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -60,8 +60,8 @@ void* SlotPool::allocate(std::size_t bytes)
       ptr = m_pointers[i];
       break;
     } else if (m_lengths[i] == 0) {
-      m_lengths[i] = -int_bytes;
       m_pointers[i] = m_allocator->allocate_internal(bytes);
+      m_lengths[i] = -int_bytes;
       ptr = m_pointers[i];
       break;
     }
-- 
2.43.0


From 4dae35134c97ff30a24800fa491e7cafbf58d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:34 +0000
Subject: [PATCH 13/46] fix: MonotonicAllocationStrategy refuses a request
 without consuming or wrapping its capacity

---
 src/umpire/strategy/MonotonicAllocationStrategy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/umpire/strategy/MonotonicAllocationStrategy.cpp b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
index af3bab6..043d67a 100644
--- a/src/umpire/strategy/MonotonicAllocationStrategy.cpp
+++ b/src/umpire/strategy/MonotonicAllocationStrategy.cpp
@@ -30,14 +30,14 @@ MonotonicAllocationStrategy::~MonotonicAllocationStrategy()
 
 void* MonotonicAllocationStrategy::allocate(std::size_t bytes)
 {
-  void* ret = static_cast<char*>(m_block) + m_size;
-  m_size += bytes;
-
-  if (m_size > m_capacity) {
+  if (bytes > m_capacity - m_size) {
     UMPIRE_ERROR(runtime_error,
-                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} > {}", m_size, m_capacity));
+                 fmt::format("MonotonicAllocationStrategy capacity exceeded {} + {} > {}", m_size, bytes, m_capacity));
   }
 
+  void* ret = static_cast<char*>(m_block) + m_size;
+  m_size += bytes;
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
   return ret;
-- 
2.43.0


From 37ce6d12760f2f612d26f3c1fc498d5d75181bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 14/46] fix: NullMemoryResource reads the size of an allocation
 before it erases it

---
 src/umpire/resource/NullMemoryResource.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 02de928..812fcdd 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -48,14 +48,14 @@ void NullMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   UMPIRE_LOG(Debug, "(ptr=" << ptr << ")");
 
   auto iter = m_size_map.find(ptr);
-  auto size = iter->second;
+  const std::size_t size{*iter->second};
 
   m_size_map.erase(ptr);
 
 #if !defined(_MSC_VER)
-  munmap(ptr, *size);
+  munmap(ptr, size);
 #else
-  VirtualFree(ptr, *size, MEM_RELEASE);
+  VirtualFree(ptr, size, MEM_RELEASE);
 #endif
 }
 
-- 
2.43.0


From 41556733d58799e015942ccf1a1a8dc3867137bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:15 +0000
Subject: [PATCH 15/46] fix: NullMemoryResource reports a reservation that
 failed instead of returning it

---
 src/umpire/resource/NullMemoryResource.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/umpire/resource/NullMemoryResource.cpp b/src/umpire/resource/NullMemoryResource.cpp
index 812fcdd..73480d0 100644
--- a/src/umpire/resource/NullMemoryResource.cpp
+++ b/src/umpire/resource/NullMemoryResource.cpp
@@ -13,6 +13,7 @@
 #include <sstream>
 
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 #if !defined(_MSC_VER)
 #include <sys/mman.h>
@@ -38,6 +39,14 @@ void* NullMemoryResource::allocate(std::size_t bytes)
 
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ptr);
 
+#if !defined(_MSC_VER)
+  if (ptr == MAP_FAILED) {
+#else
+  if (ptr == NULL) {
+#endif
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("reserving {} bytes failed", bytes));
+  }
+
   m_size_map.insert(ptr, bytes);
 
   return ptr;
-- 
2.43.0


From 74eaf4599b6e5a5192fd5de3bbf162f0c9dc3230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:09 +0000
Subject: [PATCH 16/46] fix: FileMemoryResource closes the file when an
 allocation fails

---
 src/umpire/resource/FileMemoryResource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index f65bc03..4fbc7af 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -75,6 +75,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
   int trun{ftruncate64(fd, rounded_bytes)};
   if (trun == -1) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error, fmt::format("truncate64 of file {} failed: {}", ss.str(), strerror(errno_save)));
   }
@@ -86,6 +87,7 @@ void* FileMemoryResource::allocate(std::size_t bytes)
 #endif
   if (ptr == MAP_FAILED) {
     int errno_save = errno;
+    close(fd);
     remove(ss.str().c_str());
     UMPIRE_ERROR(runtime_error,
                  fmt::format("mmap of {} to file {} failed: {}", rounded_bytes, ss.str(), strerror(errno_save)));
-- 
2.43.0


From 86a67058bbb6827bd200ff628735d79cffb981ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:46 +0000
Subject: [PATCH 17/46] fix: a shared memory request whose block size overflows
 is out of memory

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 672dc42..4cb3286 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -201,7 +201,9 @@ class HostSharedMemoryResource::impl {
     if (best != nullptr) {
       best->reference_count++;
     } else { // New allocation
-      findUsableBlock(best, prev, adjusted_size);
+      if (adjusted_size > requested_size) { // it is not when computing it overflowed
+        findUsableBlock(best, prev, adjusted_size);
+      }
 
       if (best != nullptr) {
         // Split the free block
-- 
2.43.0


From 870093178a47244fbbdba9eec0ce5779b3ab73f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:29 +0000
Subject: [PATCH 18/46] fix: pools refuse a request whose aligned size
 overflows

---
 src/umpire/strategy/mixins/AlignedAllocation.inl | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/mixins/AlignedAllocation.inl b/src/umpire/strategy/mixins/AlignedAllocation.inl
index 2e1b71d..25c4224 100644
--- a/src/umpire/strategy/mixins/AlignedAllocation.inl
+++ b/src/umpire/strategy/mixins/AlignedAllocation.inl
@@ -10,6 +10,7 @@
 #include "umpire/util/allocation_statistics.hpp"
 #include "umpire/util/memory_sanitizers.hpp"
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -17,12 +18,23 @@ namespace mixins {
 
 inline std::size_t AlignedAllocation::aligned_round_up(std::size_t size)
 {
-  return size + (m_alignment - 1) - (size - 1) % m_alignment;
+  const std::size_t rounded_size{ size + (m_alignment - 1) - (size - 1) % m_alignment };
+
+  if (rounded_size < size) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("{} bytes cannot be rounded up to a multiple of {}", size, m_alignment));
+  }
+
+  return rounded_size;
 }
 
 inline void* AlignedAllocation::aligned_allocate(std::size_t size)
 {
   std::size_t total_bytes{ size + m_alignment };
+
+  if (total_bytes < size) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("{} bytes cannot be aligned to {}", size, m_alignment));
+  }
+
   uintptr_t ptr{ reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes)) };
 
   UMPIRE_POISON_MEMORY_REGION(m_allocator, reinterpret_cast<void*>(ptr), total_bytes);
-- 
2.43.0


From d7c9b3762e0d397e25fd6028b3eeebbd6063bae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:29 +0000
Subject: [PATCH 19/46] fix: AlignedAllocator refuses a request whose padded
 size overflows

---
 src/umpire/strategy/AlignedAllocator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/umpire/strategy/AlignedAllocator.cpp b/src/umpire/strategy/AlignedAllocator.cpp
index cfaaf2c..c71969b 100644
--- a/src/umpire/strategy/AlignedAllocator.cpp
+++ b/src/umpire/strategy/AlignedAllocator.cpp
@@ -7,6 +7,7 @@
 #include "umpire/strategy/AlignedAllocator.hpp"
 
 #include "umpire/util/Macros.hpp"
+#include "umpire/util/error.hpp"
 
 namespace umpire {
 namespace strategy {
@@ -33,6 +34,10 @@ void* AlignedAllocator::allocate(std::size_t bytes)
   std::size_t total_bytes = bytes + sizeof(void*) + m_alignment - 1;
   UMPIRE_LOG(Debug, "requested: " << bytes << " actual: " << bytes + m_alignment - 1);
 
+  if (total_bytes < bytes) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("{} bytes cannot be aligned to {}", bytes, m_alignment));
+  }
+
   uintptr_t ptr{reinterpret_cast<uintptr_t>(m_allocator->allocate_internal(total_bytes))};
   uintptr_t aligned_ptr{static_cast<uintptr_t>((ptr + sizeof(void*) + (m_alignment - 1)) & m_mask)};
   uintptr_t* header = (uintptr_t*)(aligned_ptr - sizeof(void*));
-- 
2.43.0


From 3f96d051e4b372415cad03ced93d78a36be5481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:29 +0000
Subject: [PATCH 20/46] fix: a coalesce that cannot get its memory ends neither
 the program nor the deallocation that triggered it

---
 src/umpire/strategy/DynamicSizePool.hpp | 6 +++++-
 src/umpire/strategy/QuickPool.cpp       | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/umpire/strategy/DynamicSizePool.hpp b/src/umpire/strategy/DynamicSizePool.hpp
index c99a5d2..463ec03 100644
--- a/src/umpire/strategy/DynamicSizePool.hpp
+++ b/src/umpire/strategy/DynamicSizePool.hpp
@@ -448,7 +448,11 @@ class DynamicSizePool : private umpire::strategy::mixins::AlignedAllocation {
       if (size_post < suggested_size) {
         std::size_t alloc_size{suggested_size - size_post};
         UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
-        coalesceFreeBlocks(alloc_size);
+        try {
+          coalesceFreeBlocks(alloc_size);
+        } catch (...) {
+          UMPIRE_LOG(Error, "Could not allocate " << alloc_size << " bytes to coalesce into.");
+        }
       }
     }
   }
diff --git a/src/umpire/strategy/QuickPool.cpp b/src/umpire/strategy/QuickPool.cpp
index 7df4da9..80bf81c 100644
--- a/src/umpire/strategy/QuickPool.cpp
+++ b/src/umpire/strategy/QuickPool.cpp
@@ -339,8 +339,12 @@ void QuickPool::do_coalesce(std::size_t suggested_size) noexcept
       std::size_t alloc_size{suggested_size - size_post};
 
       UMPIRE_LOG(Debug, "coalescing " << alloc_size << " bytes.");
-      auto ptr = allocate(alloc_size);
-      deallocate(ptr, alloc_size);
+      try {
+        auto ptr = allocate(alloc_size);
+        deallocate(ptr, alloc_size);
+      } catch (...) {
+        UMPIRE_LOG(Error, "Could not allocate " << alloc_size << " bytes to coalesce into.");
+      }
     }
   }
 }
-- 
2.43.0


From fdf9c91b7bf64add95b3d9b6669513f9f9e16f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:49 +0000
Subject: [PATCH 21/46] fix: out of memory while a FixedPool or MixedPool is
 constructed reaches the caller

---
 src/umpire/strategy/FixedPool.cpp | 2 +-
 src/umpire/strategy/FixedPool.hpp | 2 +-
 src/umpire/strategy/MixedPool.cpp | 2 +-
 src/umpire/strategy/MixedPool.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 7eb40df..4249ef3 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -38,7 +38,7 @@ FixedPool::Pool::Pool(AllocationStrategy* allocation_strategy, const std::size_t
 }
 
 FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-                     const std::size_t objects_per_pool) noexcept
+                     const std::size_t objects_per_pool)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "FixedPool"},
       m_strategy{allocator.getAllocationStrategy()},
       m_obj_bytes{object_bytes},
diff --git a/src/umpire/strategy/FixedPool.hpp b/src/umpire/strategy/FixedPool.hpp
index cd9d3ce..1021b56 100644
--- a/src/umpire/strategy/FixedPool.hpp
+++ b/src/umpire/strategy/FixedPool.hpp
@@ -39,7 +39,7 @@ class FixedPool : public AllocationStrategy {
    * if so.
    */
   FixedPool(const std::string& name, int id, Allocator allocator, const std::size_t object_bytes,
-            const std::size_t objects_per_pool = 64 * sizeof(int) * 8) noexcept;
+            const std::size_t objects_per_pool = 64 * sizeof(int) * 8);
 
   ~FixedPool();
 
diff --git a/src/umpire/strategy/MixedPool.cpp b/src/umpire/strategy/MixedPool.cpp
index 020d0b5..adba672 100644
--- a/src/umpire/strategy/MixedPool.cpp
+++ b/src/umpire/strategy/MixedPool.cpp
@@ -22,7 +22,7 @@ MixedPool::MixedPool(const std::string& name, int id, Allocator allocator, std::
                      std::size_t largest_fixed_obj_size, std::size_t max_initial_fixed_pool_size,
                      std::size_t fixed_size_multiplier, const std::size_t quick_pool_initial_alloc_size,
                      const std::size_t quick_pool_min_alloc_size, const std::size_t quick_pool_align_bytes,
-                     PoolCoalesceHeuristic<QuickPool> should_coalesce) noexcept
+                     PoolCoalesceHeuristic<QuickPool> should_coalesce)
     : AllocationStrategy{name, id, allocator.getAllocationStrategy(), "MixedPool"},
       m_map{},
       m_fixed_pool_map{},
diff --git a/src/umpire/strategy/MixedPool.hpp b/src/umpire/strategy/MixedPool.hpp
index 8f9bc5c..d5bbc1f 100644
--- a/src/umpire/strategy/MixedPool.hpp
+++ b/src/umpire/strategy/MixedPool.hpp
@@ -53,7 +53,7 @@ class MixedPool : public AllocationStrategy {
             const std::size_t quick_pool_initial_alloc_size = (512 * 1024 * 1024),
             const std::size_t quick_pool_min_alloc_size = (1 * 1024 * 1024),
             const std::size_t quick_pool_align_bytes = 16,
-            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100)) noexcept;
+            PoolCoalesceHeuristic<QuickPool> should_coalesce = QuickPool::percent_releasable(100));
 
   void* allocate(std::size_t bytes) override;
   void deallocate(void* ptr, std::size_t size) override;
-- 
2.43.0


From 3f09a8dd8109fb6fd1482fe0637b3c6cca35bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:49 +0000
Subject: [PATCH 22/46] fix: SlotPool gives slots still in use back with their
 size when it is destroyed

---
 src/umpire/strategy/SlotPool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index cf4e3e1..f29b0bc 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -35,7 +35,8 @@ SlotPool::~SlotPool()
 {
   for (std::size_t i = 0; i < m_slots; ++i) {
     if (m_pointers[i]) {
-      m_allocator->deallocate_internal(m_pointers[i], m_lengths[i]);
+      // A slot that is in use has a negative length
+      m_allocator->deallocate_internal(m_pointers[i], (m_lengths[i] < 0) ? -m_lengths[i] : m_lengths[i]);
       m_pointers[i] = nullptr;
       m_lengths[i] = 0;
     }
-- 
2.43.0


From ffb79bd23882d3b89d79ce2ab0f7ab9a23d7897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:59 +0000
Subject: [PATCH 23/46] fix: a SlotPool without a free slot throws instead of
 returning null

---
 src/umpire/strategy/SlotPool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/umpire/strategy/SlotPool.cpp b/src/umpire/strategy/SlotPool.cpp
index f29b0bc..29bc59e 100644
--- a/src/umpire/strategy/SlotPool.cpp
+++ b/src/umpire/strategy/SlotPool.cpp
@@ -68,6 +68,10 @@ void* SlotPool::allocate(std::size_t bytes)
     }
   }
 
+  if (!ptr) {
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("no slot left for {} bytes", bytes));
+  }
+
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ptr);
   return ptr;
 }
-- 
2.43.0


From ed638235377c70ba9cb927dc23f1329f59eb5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 24/46] fix: memory is given back when advising, prefetching or
 placing it fails

---
 src/umpire/strategy/AllocationAdvisor.cpp    | 7 ++++++-
 src/umpire/strategy/AllocationPrefetcher.cpp | 7 ++++++-
 src/umpire/strategy/NumaPolicy.cpp           | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/umpire/strategy/AllocationAdvisor.cpp b/src/umpire/strategy/AllocationAdvisor.cpp
index e7682fa..87903c9 100644
--- a/src/umpire/strategy/AllocationAdvisor.cpp
+++ b/src/umpire/strategy/AllocationAdvisor.cpp
@@ -45,7 +45,12 @@ AllocationAdvisor::AllocationAdvisor(const std::string& name, int id, Allocator
 void* AllocationAdvisor::allocate(std::size_t bytes)
 {
   void* ptr = m_allocator->allocate_internal(bytes);
-  m_advice_operation->apply(ptr, nullptr, m_device, bytes);
+  try {
+    m_advice_operation->apply(ptr, nullptr, m_device, bytes);
+  } catch (...) {
+    m_allocator->deallocate_internal(ptr, bytes);
+    throw;
+  }
 
   return ptr;
 }
diff --git a/src/umpire/strategy/AllocationPrefetcher.cpp b/src/umpire/strategy/AllocationPrefetcher.cpp
index 1507dd4..6e298b0 100644
--- a/src/umpire/strategy/AllocationPrefetcher.cpp
+++ b/src/umpire/strategy/AllocationPrefetcher.cpp
@@ -27,7 +27,12 @@ void* AllocationPrefetcher::allocate(std::size_t bytes)
 {
   void* ptr = m_allocator->allocate_internal(bytes);
 
-  m_prefetch_operation->apply(ptr, nullptr, m_device, bytes);
+  try {
+    m_prefetch_operation->apply(ptr, nullptr, m_device, bytes);
+  } catch (...) {
+    m_allocator->deallocate_internal(ptr, bytes);
+    throw;
+  }
 
   return ptr;
 }
diff --git a/src/umpire/strategy/NumaPolicy.cpp b/src/umpire/strategy/NumaPolicy.cpp
index aaea75d..f6ddc24 100644
--- a/src/umpire/strategy/NumaPolicy.cpp
+++ b/src/umpire/strategy/NumaPolicy.cpp
@@ -48,7 +48,12 @@ void* NumaPolicy::allocate(std::size_t bytes)
 {
   void* ret = m_allocator->allocate_internal(bytes);
 
-  numa::move_to_node(ret, bytes, m_node);
+  try {
+    numa::move_to_node(ret, bytes, m_node);
+  } catch (...) {
+    m_allocator->deallocate_internal(ret, bytes);
+    throw;
+  }
 
   UMPIRE_LOG(Debug, "(bytes=" << bytes << ") returning " << ret);
 
-- 
2.43.0


From 141b52fee465e2890dca9667bc4abb63b4848fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:05 +0000
Subject: [PATCH 25/46] fix: FixedPool refuses a chunk whose size overflows or
 that holds no object

---
 src/umpire/strategy/FixedPool.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/umpire/strategy/FixedPool.cpp b/src/umpire/strategy/FixedPool.cpp
index 4249ef3..5ceb72a 100644
--- a/src/umpire/strategy/FixedPool.cpp
+++ b/src/umpire/strategy/FixedPool.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <sstream>
 
 #include "umpire/util/Macros.hpp"
@@ -32,6 +33,11 @@ FixedPool::Pool::Pool(AllocationStrategy* allocation_strategy, const std::size_t
       avail(reinterpret_cast<int*>(std::malloc(avail_bytes))),
       num_avail(objects_per_pool)
 {
+  if (!avail) {
+    strategy->deallocate_internal(data, object_bytes * objects_per_pool);
+    UMPIRE_ERROR(out_of_memory_error, fmt::format("FixedPool: no memory to manage {} objects", objects_per_pool));
+  }
+
   // Set all bits to 1
   const unsigned char not_zero = static_cast<unsigned char>(~0);
   std::memset(avail, not_zero, avail_bytes);
@@ -50,6 +56,15 @@ FixedPool::FixedPool(const std::string& name, int id, Allocator allocator, const
       m_highwatermark{0},
       m_pool{}
 {
+  if (!m_obj_per_pool) {
+    UMPIRE_ERROR(runtime_error, "FixedPool: a pool needs at least one object");
+  }
+
+  if (m_obj_bytes && m_obj_per_pool > std::numeric_limits<std::size_t>::max() / m_obj_bytes) {
+    UMPIRE_ERROR(out_of_memory_error,
+                 fmt::format("FixedPool: {} objects of {} bytes do not fit into memory", m_obj_per_pool, m_obj_bytes));
+  }
+
   newPool();
 }
 
-- 
2.43.0


From dfe3f8dde3a0b25e2b44a7da56014f7fb671a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:05 +0000
Subject: [PATCH 26/46] fix: a pool that cannot allocate its bookkeeping throws
 instead of writing through null

---
 src/umpire/strategy/StdAllocator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/umpire/strategy/StdAllocator.hpp b/src/umpire/strategy/StdAllocator.hpp
index b795689..b2e4f3f 100644
--- a/src/umpire/strategy/StdAllocator.hpp
+++ b/src/umpire/strategy/StdAllocator.hpp
@@ -8,11 +8,16 @@
 #define _STDALLOCATOR_HPP
 
 #include <cstdlib>
+#include <new>
 
 struct StdAllocator {
   static inline void* allocate(std::size_t size)
   {
-    return std::malloc(size);
+    void* ptr = std::malloc(size);
+    if (!ptr) {
+      throw std::bad_alloc{};
+    }
+    return ptr;
   }
   static inline void deallocate(void* ptr)
   {
-- 
2.43.0


From 211941bb87321e4788fc4b9517f13101ee6548c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 27/46] fix: copy refuses to read beyond the end of the source
 allocation

---
 src/umpire/ResourceManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index ee58038..4e3529e 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -410,6 +410,10 @@ void ResourceManager::copy(void* dst_ptr, void* src_ptr, std::size_t size)
                  fmt::format("Not enough space in destination to copy {} bytes into {} bytes", size, dst_size));
   }
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy {} bytes from {} bytes in source", size, src_size));
+  }
+
   auto op = op_registry.find("COPY", src_alloc_record->strategy, dst_alloc_record->strategy);
 
   op->transform(src_ptr, &dst_ptr, src_alloc_record, dst_alloc_record, size);
@@ -455,6 +459,10 @@ camp::resources::EventProxy<camp::resources::Resource> ResourceManager::copy(voi
     UMPIRE_ERROR(runtime_error, fmt::format("Not enough resource in destination for copy: {} -> {}", size, dst_size));
   }
 
+  if (size > src_size) {
+    UMPIRE_ERROR(runtime_error, fmt::format("Cannot copy {} bytes from {} bytes in source", size, src_size));
+  }
+
   auto op = op_registry.find("COPY", src_alloc_record->strategy, dst_alloc_record->strategy);
 
   return op->transform_async(src_ptr, &dst_ptr, src_alloc_record, dst_alloc_record, size, ctx);
-- 
2.43.0


From bebe54513566c04b47483bc8a160d705fb660c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:10 +0000
Subject: [PATCH 28/46] fix: reallocating HOST memory keeps the allocator's
 size and, when it fails, the old record

---
 src/umpire/op/HostReallocateOperation.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/umpire/op/HostReallocateOperation.cpp b/src/umpire/op/HostReallocateOperation.cpp
index 76b39d4..578e37d 100644
--- a/src/umpire/op/HostReallocateOperation.cpp
+++ b/src/umpire/op/HostReallocateOperation.cpp
@@ -32,15 +32,24 @@ void HostReallocateOperation::transform(void* current_ptr, void** new_ptr, util:
     ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
     allocator.deallocate(current_ptr);
   } else {
+    // new_allocation may be the record that is removed here
+    auto strategy = new_allocation->strategy;
     auto old_record = ResourceManager::getInstance().deregisterAllocation(current_ptr);
     *new_ptr = ::realloc(current_ptr, new_size);
 
     if (!*new_ptr) {
+      // The old block is untouched
+      ResourceManager::getInstance().registerAllocation(current_ptr, old_record);
       UMPIRE_ERROR(runtime_error, fmt::format("::realloc(current_ptr={}, old_size={}, new_size={}) failed.",
                                               current_ptr, old_record.size, new_size));
     }
 
-    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, new_allocation->strategy});
+    ResourceManager::getInstance().registerAllocation(*new_ptr, {*new_ptr, new_size, strategy});
+
+    strategy->m_current_size += new_size - old_size;
+    if (strategy->m_current_size > strategy->m_high_watermark) {
+      strategy->m_high_watermark = strategy->m_current_size;
+    }
   }
 }
 
-- 
2.43.0


From e79a4389ed45987741e905f5a362af53bf4c898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:06 +0000
Subject: [PATCH 29/46] fix: memory obtained for a move or reallocation is
 given back when copying fails

---
 src/umpire/ResourceManager.cpp               |  7 ++++++-
 src/umpire/op/GenericReallocateOperation.cpp | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 4e3529e..6ec079d 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -822,7 +822,12 @@ void* ResourceManager::move(void* ptr, Allocator allocator)
   }
 
   void* dst_ptr{allocator.allocate(alloc_record->size)};
-  copy(dst_ptr, ptr);
+  try {
+    copy(dst_ptr, ptr);
+  } catch (...) {
+    allocator.deallocate(dst_ptr);
+    throw;
+  }
 
   deallocate(ptr);
 
diff --git a/src/umpire/op/GenericReallocateOperation.cpp b/src/umpire/op/GenericReallocateOperation.cpp
index 16709be..a69e519 100644
--- a/src/umpire/op/GenericReallocateOperation.cpp
+++ b/src/umpire/op/GenericReallocateOperation.cpp
@@ -26,7 +26,12 @@ void GenericReallocateOperation::transform(void* current_ptr, void** new_ptr,
   const std::size_t old_size = current_allocation->size;
   const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;
 
-  ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
+  try {
+    ResourceManager::getInstance().copy(*new_ptr, current_ptr, copy_size);
+  } catch (...) {
+    allocator.deallocate(*new_ptr);
+    throw;
+  }
 
   allocator.deallocate(current_ptr);
 }
@@ -41,7 +46,14 @@ camp::resources::EventProxy<camp::resources::Resource> GenericReallocateOperatio
   const std::size_t old_size = current_allocation->size;
   const std::size_t copy_size = (old_size > new_size) ? new_size : old_size;
 
-  auto event = ResourceManager::getInstance().copy(*new_ptr, current_ptr, ctx, copy_size);
+  auto event = [&]() {
+    try {
+      return ResourceManager::getInstance().copy(*new_ptr, current_ptr, ctx, copy_size);
+    } catch (...) {
+      allocator.deallocate(*new_ptr);
+      throw;
+    }
+  }();
 
   allocator.deallocate(current_ptr);
 
-- 
2.43.0


From 8a104195720153095e4be2b7b54882b910d8c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:41 +0000
Subject: [PATCH 30/46] fix: makeResource refuses an unknown resource name
 before it registers anything

---
 src/umpire/ResourceManager.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 6ec079d..4c9d6fe 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -143,6 +143,11 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
 
   resource::MemoryResourceRegistry& registry{resource::MemoryResourceRegistry::getInstance()};
 
+  // A name that is no resource type must be refused before anything is registered
+  const bool is_resource_type{name.find("::") == std::string::npos};
+  const resource::MemoryResourceType resource_type{is_resource_type ? resource::string_to_resource(name)
+                                                                    : resource::MemoryResourceType::Unknown};
+
   if (name.find("DEVICE") != std::string::npos) {
     traits.id = resource::resource_to_device_id(name);
   }
@@ -176,8 +181,8 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
     std::string base_name{name.substr(0, name.find("::") - 1)};
     m_allocators_by_name[base_name] = allocator.get();
   }
-  if (name.find("::") == std::string::npos) {
-    m_memory_resources[resource::string_to_resource(name)] = allocator.get();
+  if (is_resource_type) {
+    m_memory_resources[resource_type] = allocator.get();
   }
   m_allocators_by_id[id] = allocator.get();
   m_allocators.emplace_front(std::move(allocator));
-- 
2.43.0


From d6d273b283e86b2201010dedc324a0e1d95d897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:41 +0000
Subject: [PATCH 31/46] fix: making resource X::0 no longer rebinds a truncated
 name to it

---
 src/umpire/ResourceManager.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 4c9d6fe..6a12a30 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -174,12 +174,15 @@ Allocator ResourceManager::makeResource(const std::string& name, MemoryResourceT
 
   int id{allocator->getId()};
   m_allocators_by_name[name] = allocator.get();
+  // emplace: a name that already refers to an allocator keeps referring to it
   if (name == "DEVICE") {
-    m_allocators_by_name["DEVICE::0"] = allocator.get();
+    m_allocators_by_name.emplace("DEVICE::0", allocator.get());
   }
   if (name.find("::0") != std::string::npos) {
-    std::string base_name{name.substr(0, name.find("::") - 1)};
-    m_allocators_by_name[base_name] = allocator.get();
+    std::string base_name{name.substr(0, name.find("::"))};
+    if (name == base_name + "::0") {
+      m_allocators_by_name.emplace(base_name, allocator.get());
+    }
   }
   if (is_resource_type) {
     m_memory_resources[resource_type] = allocator.get();
-- 
2.43.0


From b11075e58b4c161a5495eef7f7d4af2442a97683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:41 +0000
Subject: [PATCH 32/46] fix: removeAlias refuses the name of a resource that
 has not been created

---
 src/umpire/ResourceManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/umpire/ResourceManager.cpp b/src/umpire/ResourceManager.cpp
index 6a12a30..e9995e9 100644
--- a/src/umpire/ResourceManager.cpp
+++ b/src/umpire/ResourceManager.cpp
@@ -308,6 +308,10 @@ void ResourceManager::removeAlias(const std::string& name, Allocator allocator)
   }
 
   auto a = m_allocators_by_name.find(name);
+  if (a == m_allocators_by_name.end()) {
+    UMPIRE_ERROR(runtime_error, fmt::format("\"{}\" is not an alias, so cannot be removed", name));
+  }
+
   if (a->second->getName().compare(name) == 0) {
     UMPIRE_ERROR(runtime_error, fmt::format("\"{}\" is not an alias, so cannot be removed", name));
   }
-- 
2.43.0


From b808d2ebe7e4df94e8d5427f179a71f6e7a1a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:44 +0000
Subject: [PATCH 33/46] fix: FILE memory that is unmapped is forgotten even if
 its file cannot be removed

---
 src/umpire/resource/FileMemoryResource.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 4fbc7af..6e48551 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -124,13 +124,14 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   ::close(m_filefd[iter->second->first.c_str()]);
   m_filefd.erase(iter->second->first.c_str());
 #endif
+  // Remove Information about file in m_size_map: the memory is gone, even if the file cannot be removed
+  const std::string file_name{iter->second->first};
+  m_size_map.erase(iter->first);
+
   // Remove File
-  if (remove(iter->second->first.c_str()) < 0) {
-    UMPIRE_ERROR(runtime_error,
-                 fmt::format("remove of file {} failed: {}", iter->second->first.c_str(), strerror(errno)));
+  if (remove(file_name.c_str()) < 0) {
+    UMPIRE_ERROR(runtime_error, fmt::format("remove of file {} failed: {}", file_name, strerror(errno)));
   }
-  // Remove Information about file in m_size_map
-  m_size_map.erase(iter->first);
 }
 
 std::size_t FileMemoryResource::getCurrentSize() const noexcept
-- 
2.43.0


From 22f7394753a8c394bb2ae0e8d1f308d0a633f1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:26 +0000
Subject: [PATCH 34/46] fix: destroying the FILE resource with a leaked
 allocation whose file is gone no longer ends the program

---
 src/umpire/resource/FileMemoryResource.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index 6e48551..dcee78f 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -44,7 +44,11 @@ FileMemoryResource::~FileMemoryResource()
   }
 
   for (auto const& p : leaked_items) {
-    deallocate(p, 0);
+    try {
+      deallocate(p, 0);
+    } catch (const std::exception& e) {
+      UMPIRE_LOG(Error, e.what());
+    }
   }
 }
 
-- 
2.43.0


From 31896acebe0c8f7d553aa20074b3a6b0fff6523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:05 +0000
Subject: [PATCH 35/46] fix: find_pointer_from_name reports an allocator that
 is not shared memory instead of misusing it

---
 src/umpire/Umpire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/Umpire.cpp b/src/umpire/Umpire.cpp
index 76297c3..9f0d06f 100644
--- a/src/umpire/Umpire.cpp
+++ b/src/umpire/Umpire.cpp
@@ -214,7 +214,7 @@ void* find_pointer_from_name(Allocator allocator, const std::string& name)
   auto base_strategy = util::unwrap_allocator<strategy::AllocationStrategy>(allocator);
 
   umpire::resource::HostSharedMemoryResource* shared_resource =
-      reinterpret_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
+      dynamic_cast<umpire::resource::HostSharedMemoryResource*>(base_strategy);
 
   if (shared_resource != nullptr) {
     ptr = shared_resource->find_pointer_from_name(name);
-- 
2.43.0


From 6c0f4ad6937d0935530bf66a98479357e3967756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:05 +0000
Subject: [PATCH 36/46] fix: a shared allocation that exists with a smaller
 size is not handed out for a larger request

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 4cb3286..02cff9c 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -199,6 +199,11 @@ class HostSharedMemoryResource::impl {
     SharedMemoryBlock* prev{nullptr};
 
     if (best != nullptr) {
+      if (mem_size > best->name_offset - best->memory_offset) {
+        pthread_mutex_unlock(&m_segment->mutex);
+        UMPIRE_ERROR(runtime_error, fmt::format("shared memory allocation \"{}\" already exists and has fewer than {} bytes",
+                                                name, requested_size));
+      }
       best->reference_count++;
     } else { // New allocation
       if (adjusted_size > requested_size) { // it is not when computing it overflowed
-- 
2.43.0


From 476a3af044299c3643d7159cd683c4a73128d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:05 +0000
Subject: [PATCH 37/46] fix: a shared memory segment that cannot be set up is
 closed and removed

---
 .../resource/HostSharedMemoryResourceImpl.hpp | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 02cff9c..3b32106 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -91,27 +91,31 @@ class HostSharedMemoryResource::impl {
     if (created) {
       if (0 != ftruncate(m_segment_fd, size)) {
         err = errno;
+        abandon_shared_memory_segment(created);
         UMPIRE_ERROR(runtime_error, fmt::format("Failed to set size for shared memory segment \"{}\": {}",
                                                 m_segment_name, strerror(err)));
       }
 
-      map_shared_memory_segment();
+      map_shared_memory_segment(created);
 
       __atomic_store_n(&m_segment->init_flag, Initializing, __ATOMIC_SEQ_CST);
 
       pthread_mutexattr_t mattr;
       if ((err = pthread_mutexattr_init(&mattr)) != 0) {
+        abandon_shared_memory_segment(created);
         UMPIRE_ERROR(runtime_error,
                      fmt::format("Failed to initialize mutex attributes for shared memory segment \"{}\": {}",
                                  m_segment_name, strerror(err)));
       }
 
       if ((err = pthread_mutexattr_setpshared(&mattr, PTHREAD_PROCESS_SHARED)) != 0) {
+        abandon_shared_memory_segment(created);
         UMPIRE_ERROR(runtime_error, fmt::format("Failed to set shared attributes for shared memory segment \"{}\": {}",
                                                 m_segment_name, strerror(err)));
       }
 
       if ((err = pthread_mutex_init(&m_segment->mutex, &mattr)) != 0) {
+        abandon_shared_memory_segment(created);
         UMPIRE_ERROR(runtime_error, fmt::format("Failed to initialize mutex for shared memory segment \"{}\": {}",
                                                 m_segment_name, strerror(err)));
       }
@@ -138,6 +142,7 @@ class HostSharedMemoryResource::impl {
 
         if (fstat(m_segment_fd, &st) < 0) {
           err = errno;
+          abandon_shared_memory_segment(created);
           UMPIRE_ERROR(runtime_error,
                        fmt::format("Failed fstat for shared memory segment  {}: {}", m_segment_name, strerror(err)));
         }
@@ -145,7 +150,7 @@ class HostSharedMemoryResource::impl {
         std::this_thread::yield();
       }
 
-      map_shared_memory_segment();
+      map_shared_memory_segment(created);
 
       uint32_t value{__atomic_load_n(&m_segment->init_flag, __ATOMIC_SEQ_CST)};
 
@@ -491,11 +496,24 @@ class HostSharedMemoryResource::impl {
     return rval;
   }
 
-  void map_shared_memory_segment()
+  // Gives back what was obtained when setting up the segment fails
+  void abandon_shared_memory_segment(bool created)
+  {
+    if (m_segment != nullptr) {
+      munmap(m_segment, m_segment_size);
+    }
+    if (created) {
+      shm_unlink(m_segment_name.c_str());
+    }
+    close(m_segment_fd);
+  }
+
+  void map_shared_memory_segment(bool created)
   {
     struct ::stat buf;
     if (0 != fstat(m_segment_fd, &buf)) {
       int err = errno;
+      abandon_shared_memory_segment(created);
       UMPIRE_ERROR(runtime_error,
                    fmt::format("Failed to obtain size of shared object \"{}\": {}", m_segment_name, strerror(err)));
     }
@@ -509,6 +527,7 @@ class HostSharedMemoryResource::impl {
 
     if (base == MAP_FAILED) {
       int err = errno;
+      abandon_shared_memory_segment(created);
       UMPIRE_ERROR(runtime_error, fmt::format("Failed to map shared object \"{}\": {}", m_segment_name, strerror(err)));
     }
 
-- 
2.43.0


From 54c6a62c487314b44712b698b595ff1eb5179b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:05 +0000
Subject: [PATCH 38/46] fix: a shared memory segment too small for its own
 bookkeeping is refused

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index 3b32106..fbcc804 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -89,6 +89,12 @@ class HostSharedMemoryResource::impl {
     }
 
     if (created) {
+      if (size < sizeof(SharedMemorySegmentHeader) + sizeof(SharedMemoryBlock)) {
+        abandon_shared_memory_segment(created);
+        UMPIRE_ERROR(runtime_error,
+                     fmt::format("A shared memory segment of {} bytes is too small: \"{}\"", size, m_segment_name));
+      }
+
       if (0 != ftruncate(m_segment_fd, size)) {
         err = errno;
         abandon_shared_memory_segment(created);
-- 
2.43.0


From 913116fec61a59b6d1b83a301d29674c3aefd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:04 +0000
Subject: [PATCH 39/46] fix: an existing shared allocation is not handed out
 for a request whose rounded size overflows

---
 src/umpire/resource/HostSharedMemoryResourceImpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
index fbcc804..ec8dfa6 100644
--- a/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
+++ b/src/umpire/resource/HostSharedMemoryResourceImpl.hpp
@@ -210,7 +210,7 @@ class HostSharedMemoryResource::impl {
     SharedMemoryBlock* prev{nullptr};
 
     if (best != nullptr) {
-      if (mem_size > best->name_offset - best->memory_offset) {
+      if (requested_size > best->name_offset - best->memory_offset) {
         pthread_mutex_unlock(&m_segment->mutex);
         UMPIRE_ERROR(runtime_error, fmt::format("shared memory allocation \"{}\" already exists and has fewer than {} bytes",
                                                 name, requested_size));
-- 
2.43.0


From 52aaeb40b47e82f02f72729743de7c7d28cf8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:21 +0000
Subject: [PATCH 40/46] fix: TypedAllocator refuses an element count whose size
 in bytes overflows

---
 src/umpire/TypedAllocator.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/umpire/TypedAllocator.inl b/src/umpire/TypedAllocator.inl
index 9db0e5c..c10c42c 100644
--- a/src/umpire/TypedAllocator.inl
+++ b/src/umpire/TypedAllocator.inl
@@ -7,6 +7,9 @@
 #ifndef UMPIRE_TypedAllocator_INL
 #define UMPIRE_TypedAllocator_INL
 
+#include <limits>
+#include <new>
+
 #include "umpire/util/Macros.hpp"
 
 namespace umpire {
@@ -25,6 +28,10 @@ TypedAllocator<T>::TypedAllocator(const TypedAllocator<U>& other) : m_allocator(
 template <typename T>
 T* TypedAllocator<T>::allocate(std::size_t size)
 {
+  if (size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+    throw std::bad_array_new_length{};
+  }
+
   return static_cast<T*>(m_allocator.allocate(sizeof(T) * size));
 }
 
-- 
2.43.0


From 5768584f4201bd5c62adfe44e3b540276a8a1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:30 +0000
Subject: [PATCH 41/46] fix: the FILE allocator reports its current size and
 high watermark

---
 src/umpire/resource/FileMemoryResource.cpp | 10 ----------
 src/umpire/resource/FileMemoryResource.hpp |  3 ---
 2 files changed, 13 deletions(-)

diff --git a/src/umpire/resource/FileMemoryResource.cpp b/src/umpire/resource/FileMemoryResource.cpp
index dcee78f..93b5798 100644
--- a/src/umpire/resource/FileMemoryResource.cpp
+++ b/src/umpire/resource/FileMemoryResource.cpp
@@ -138,16 +138,6 @@ void FileMemoryResource::deallocate(void* ptr, std::size_t UMPIRE_UNUSED_ARG(siz
   }
 }
 
-std::size_t FileMemoryResource::getCurrentSize() const noexcept
-{
-  return 0;
-}
-
-std::size_t FileMemoryResource::getHighWatermark() const noexcept
-{
-  return 0;
-}
-
 bool FileMemoryResource::isPageable() noexcept
 {
 #if defined(UMPIRE_ENABLE_CUDA)
diff --git a/src/umpire/resource/FileMemoryResource.hpp b/src/umpire/resource/FileMemoryResource.hpp
index b13f845..e5ae656 100644
--- a/src/umpire/resource/FileMemoryResource.hpp
+++ b/src/umpire/resource/FileMemoryResource.hpp
@@ -81,9 +81,6 @@ class FileMemoryResource : public MemoryResource {
    */
   void deallocate(void* ptr, std::size_t size);
 
-  std::size_t getCurrentSize() const noexcept;
-  std::size_t getHighWatermark() const noexcept;
-
   bool isAccessibleFrom(Platform p) noexcept;
 
   Platform getPlatform() noexcept;
-- 
2.43.0


From e757f0cb1dfccd782d410d150602b887cc183a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:40 +0000
Subject: [PATCH 42/46] fix: the 100 percent heuristic of a list pool looks at
 the blocks, not at statistics an untracked pool does not keep

---
 src/umpire/strategy/DynamicPoolList.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/umpire/strategy/DynamicPoolList.cpp b/src/umpire/strategy/DynamicPoolList.cpp
index 0dd48d5..b838e0b 100644
--- a/src/umpire/strategy/DynamicPoolList.cpp
+++ b/src/umpire/strategy/DynamicPoolList.cpp
@@ -160,7 +160,9 @@ PoolCoalesceHeuristic<DynamicPoolList> DynamicPoolList::percent_releasable(int p
   if (percentage == 0) {
     return [=](const DynamicPoolList& UMPIRE_UNUSED_ARG(pool)) { return 0; };
   } else if (percentage == 100) {
-    return [=](const strategy::DynamicPoolList& pool) { return pool.getCurrentSize() == 0 ? pool.getActualSize() : 0; };
+    return [=](const strategy::DynamicPoolList& pool) {
+      return pool.getReleasableBlocks() == pool.getTotalBlocks() ? pool.getActualSize() : 0;
+    };
   } else {
     float f = (float)((float)percentage / (float)100.0);
     return [=](const strategy::DynamicPoolList& pool) {
@@ -182,7 +184,7 @@ PoolCoalesceHeuristic<DynamicPoolList> DynamicPoolList::percent_releasable_hwm(i
     return [=](const DynamicPoolList& UMPIRE_UNUSED_ARG(pool)) { return 0; };
   } else if (percentage == 100) {
     return [=](const strategy::DynamicPoolList& pool) {
-      return pool.getCurrentSize() == 0 ? pool.getAlignedHighwaterMark() : 0;
+      return pool.getReleasableBlocks() == pool.getTotalBlocks() ? pool.getAlignedHighwaterMark() : 0;
     };
   } else {
     float f = (float)((float)percentage / (float)100.0);
-- 
2.43.0


From 719990dec32205795bf4b71a730c51cbef6449c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:48 +0000
Subject: [PATCH 43/46] fix: a JSON event store opens its file also when the
 first event is an allocation or a deallocation

---
 src/umpire/event/json_file_store.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 3705ff7..76d6a7b 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -38,6 +38,7 @@ void json_file_store::insert(const event& e)
 
 void json_file_store::insert(const allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -52,6 +53,7 @@ void json_file_store::insert(const allocate& e)
 
 void json_file_store::insert(const named_allocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
@@ -66,6 +68,7 @@ void json_file_store::insert(const named_allocate& e)
 
 void json_file_store::insert(const deallocate& e)
 {
+  open_store();
   fprintf(m_fstream,
           R"({"category":"operation","name":"deallocate")"
           R"(,"string_args":{"allocator_ref":"%p","pointer":"%p"})"
-- 
2.43.0


From 7aa23d189ec44ff04820314938f41de7131e7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:48 +0000
Subject: [PATCH 44/46] fix: the name of a named allocation is written to the
 event log as a JSON string

---
 src/umpire/event/json_file_store.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index 76d6a7b..e5ebf0b 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -54,14 +54,15 @@ void json_file_store::insert(const allocate& e)
 void json_file_store::insert(const named_allocate& e)
 {
   open_store();
+  const std::string name{nlohmann::json(e.name).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace)};
   fprintf(m_fstream,
           R"({"category":"operation","name":"named_allocate")"
           R"(,"numeric_args":{"size":%ld})"
-          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":"%s"})"
+          R"(,"string_args":{"allocator_ref":"%p","pointer":"%p","allocation_name":%s})"
           R"(,"tags":{"replay":"true"})"
           R"(,"timestamp":%lld})"
           "\n",
-          e.size, e.ref, e.ptr, e.name.c_str(),
+          e.size, e.ref, e.ptr, name.c_str(),
           static_cast<long long>(
               std::chrono::time_point_cast<std::chrono::nanoseconds>(e.timestamp).time_since_epoch().count()));
 }
-- 
2.43.0


From 3f83ced7790a2c103a601e7f7d8a61329bd3e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:48 +0000
Subject: [PATCH 45/46] fix: recording an event whose text is not UTF-8 does
 not fail the operation

---
 src/umpire/event/json_file_store.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/umpire/event/json_file_store.cpp b/src/umpire/event/json_file_store.cpp
index e5ebf0b..ef28f0e 100644
--- a/src/umpire/event/json_file_store.cpp
+++ b/src/umpire/event/json_file_store.cpp
@@ -31,9 +31,8 @@ void json_file_store::insert(const event& e)
 {
   open_store();
   nlohmann::json json_event = e;
-  std::stringstream ss;
-  ss << json_event;
-  fprintf(m_fstream, "%s\n", ss.str().c_str());
+  const std::string line{json_event.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace)};
+  fprintf(m_fstream, "%s\n", line.c_str());
 }
 
 void json_file_store::insert(const allocate& e)
-- 
2.43.0


From 6e7eadea8fef179f1da3277e0ef40758da062311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:36 +0000
Subject: [PATCH 46/46] fix: finalize_io is declared as it is defined

The header declared finalize_io(const bool), the source defines finalize_io(): every call failed to link.
---
 src/umpire/util/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/umpire/util/io.hpp b/src/umpire/util/io.hpp
index 9a50504..579006a 100644
--- a/src/umpire/util/io.hpp
+++ b/src/umpire/util/io.hpp
@@ -41,7 +41,7 @@ void initialize_io(const bool enable_log);
  * \brief Counterpart of initialize_io that finalizes the streams and ensures that no live references to the buffers
  * of standard streams exist. Most users will not need to call this manually.
  */
-void finalize_io(const bool enable_log);
+void finalize_io();
 
 /*!
  * \brief Synchronize all stream buffers to their respective output sequences.
-- 
2.43.0

