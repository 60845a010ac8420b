From f5a4288c757084bee444061f3a0174bfaef854f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 01/29] fix: simple_resource walks its regions by block index,
 not by bool

The actions passed to apply() returned the next region's index through a
bool, which turned every index above 1 into 1: allocation could miss free
regions or never terminate, and release() could leave regions allocated.
---
 sources/include/utils/memory/simple_resource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 995d026..042299e 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -214,7 +214,7 @@ class simple_resource : public memory_resource
     void release() noexcept
     {
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
-              [this](BIndex aIndex) mutable noexcept -> bool
+              [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
     }
 
@@ -302,7 +302,7 @@ class simple_resource : public memory_resource
                 apply([this](BIndex aIndex) noexcept -> bool
                       { return not in_use(aIndex); },
                       [this, &pointer, aAlignment,
-                       aSize](BIndex aIndex) mutable noexcept -> bool
+                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                       {
                           const auto block_size = block_size_in_bytes(aIndex);
                           std::byte *const block_pointer =
@@ -391,7 +391,7 @@ class simple_resource : public memory_resource
 
     template <typename Predicate, typename Action>
     std::enable_if_t<std::is_nothrow_invocable_r_v<bool, Predicate, BIndex> &&
-                     std::is_nothrow_invocable_r_v<bool, Action, BIndex>>
+                     std::is_nothrow_invocable_r_v<BIndex, Action, BIndex>>
     apply(Predicate &&aPredicate, Action &&aAction) noexcept
     {
         BIndex i = 0;
-- 
2.43.0


From 31a4b3f8882380faa13a7b74db6e96b8e3f3065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 02/29] fix: simple_resource reserves exactly the blocks an
 allocation touches

The last block was computed from the first byte after the allocation, so a
size that is a multiple of the block size took one block too many, and an
allocation that exactly filled a region reached into the next region.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 042299e..e0ddca3 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -413,7 +413,7 @@ class simple_resource : public memory_resource
                          std::size_t aSize) noexcept
     {
         const BIndex first = pointer_to_block_index(aPtr);
-        const BIndex last = pointer_to_block_index(aPtr + aSize);
+        const BIndex last = pointer_to_block_index(aPtr + aSize - 1);
         const BIndex after_free = at(aFreeRegion).next_index();
         const BIndex last_of_free =
             after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);
-- 
2.43.0


From 52d0b33c5649326ac6ef8b4c9a2d8f9a307c4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 03/29] fix: simple_resource does not serve sizes that wrap
 around

skip + aSize overflowed for sizes near the maximum, and a tiny piece of the
buffer was returned for a gigantic request.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index e0ddca3..fd2ec52 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -309,7 +309,7 @@ class simple_resource : public memory_resource
                               block_index_to_pointer(aIndex);
                           const auto skip =
                               skip_to_align(block_pointer, aAlignment);
-                          if (skip + aSize <= block_size)
+                          if (skip <= block_size && aSize <= block_size - skip)
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-- 
2.43.0


From 0bc8aeabed8c4727987f9f0be6a717615636dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 04/29] fix: simple_resource asks its upstream for block
 aligned memory

Deallocation requires every pointer to be aligned to the block size, but the
upstream was only asked for the caller's alignment, so a valid upstream
pointer tripped the assertion or aborted the process when deallocated.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index fd2ec52..7329c5d 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -323,7 +323,7 @@ class simple_resource : public memory_resource
         if (!pointer && upstream_)
         {
             pointer = static_cast<std::byte *>(
-                upstream_->allocate(aSize, aAlignment));
+                upstream_->allocate(aSize, std::max(aAlignment, BlockSize)));
         }
 
         assert(is_aligned(pointer, BlockSize));
-- 
2.43.0


From e6667ad492c59f1f8539668535381140a19a63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 05/29] fix: simple_resource over a buffer without room for a
 block is empty

Such a resource reported one free region, and release() read the
bookkeeping of a block that does not exist (an assertion in debug builds).
---
 sources/include/utils/memory/simple_resource.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 7329c5d..1eb8d17 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -213,6 +213,11 @@ class simple_resource : public memory_resource
 
     void release() noexcept
     {
+        if (!block_count_)
+        {
+            return;
+        }
+
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
               [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
@@ -277,6 +282,7 @@ class simple_resource : public memory_resource
         , block_count_(
               std::min(std::get<1>(aOriginAndBlockCount), MaxBlockCount))
         , upstream_(aUpstream)
+        , free_count_(block_count_ ? 1 : 0)
     {
     }
 
@@ -551,7 +557,7 @@ class simple_resource : public memory_resource
     memory_resource *upstream_{memory::get_default_resource()};
     block_info infos_[MaxBlockCount]{};
     std::bitset<MaxBlockCount> in_use_{};
-    std::size_t free_count_{1};
+    std::size_t free_count_{};
     std::size_t busy_count_{};
 };
 }  // namespace memory
-- 
2.43.0


From 2dd723e18e66b0f7e5c39636b10daf2f4b6e0366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 06/29] fix: buffer alignments of 2^31 and more are computed in
 std::size_t

Shifting an int produced a negative or undefined value for buffers aligned
to 2^31 bytes or more.
---
 sources/include/utils/common.h                 | 2 +-
 sources/include/utils/memory/simple_resource.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 45589ff..677b675 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -423,7 +423,7 @@ constexpr std::size_t max_alignment_inside_block(
     const std::size_t msb = bits_count(value) - 1;
 
     // 2. return 2^msb
-    const std::size_t max_alignment = 1 << msb;
+    const std::size_t max_alignment = std::size_t{1} << msb;
 
     return max_alignment;
     ;
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 1eb8d17..44bac61 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -301,7 +301,7 @@ class simple_resource : public memory_resource
         if (data_)
         {
             const std::size_t kBufferAlignment =
-                1 << ctz(reinterpret_cast<uintptr_t>(data_));
+                std::size_t{1} << ctz(reinterpret_cast<uintptr_t>(data_));
             if (aAlignment <= max_alignment_inside_block(
                                   kBufferAlignment, block_count_ * BlockSize))
             {
-- 
2.43.0


From 7943e61d3a02deae69eae540e4b4989f2b24a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 07/29] fix: monotonic_buffer_resource does not serve sizes
 that wrap around

The end of the candidate range was computed by adding the requested size to
a pointer, which overflows for sizes near the maximum: the request was then
served from the buffer and the next position moved outside it.
---
 sources/include/utils/memory/monotonic_buffer_resource.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 33f5368..77c83c0 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -72,12 +72,11 @@ class monotonic_buffer_resource : public memory_resource
         if (data_)
         {
             const auto skip = skip_to_align(next_, aAlignment);
-            std::byte *supposed_result = next_ + skip;
-            if (std::less_equal<std::byte *>{}(supposed_result + aSize,
-                                               data_ + size_))
+            const auto room = static_cast<std::size_t>(data_ + size_ - next_);
+            if (skip <= room && aSize <= room - skip)
             {
-                next_ = supposed_result + aSize;
-                pointer = supposed_result;
+                pointer = next_ + skip;
+                next_ = pointer + aSize;
             }
         }
 
-- 
2.43.0


From a2d00d6195b65891ed57a034e2ce0d9f544f513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 08/29] fix: monotonic_buffer_resource returns upstream memory
 to its upstream

Requests the buffer cannot serve are forwarded to the upstream resource, but
deallocating the memory obtained that way was ignored, so every such block
was lost for good.
---
 .../include/utils/memory/monotonic_buffer_resource.h  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 77c83c0..3b77917 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -89,7 +89,16 @@ class monotonic_buffer_resource : public memory_resource
         return pointer;
     }
 
-    void deallocate_impl(void *) noexcept {}
+    void deallocate_impl(void *aPtr) noexcept
+    {
+        const auto ptr = static_cast<std::byte *>(aPtr);
+        const bool in_buffer = !std::less<std::byte *>{}(ptr, data_) &&
+                               std::less<std::byte *>{}(ptr, data_ + size_);
+        if (ptr && !in_buffer && upstream_)
+        {
+            upstream_->deallocate(ptr);
+        }
+    }
 
     std::byte *data_{};
     std::size_t size_{};
-- 
2.43.0


From d1f90fd28d44e5b4586f07617c85bc65665b95e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 09/29] fix: allocator refuses element counts whose size is not
 representable

count * sizeof(T) wrapped around and a short piece of memory was returned
for a huge number of elements.
---
 sources/include/utils/memory/allocator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c783925..07ef526 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,6 +1,7 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <limits>
 #include <type_traits>
 
 #include "memory.h"
@@ -28,6 +29,10 @@ class allocator
 
     [[nodiscard]] T* allocate(std::size_t aCount) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(T))
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             resource_->allocate(aCount * sizeof(T), alignof(T)));
     }
@@ -52,6 +57,10 @@ class allocator
     template <typename U>
     [[nodiscard]] U* allocate_object(std::size_t aCount = 1) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
+        {
+            return nullptr;
+        }
         return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From b4380422a99e556806a1e9ddadcffa36828192cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 10/29] fix: allocator forwards constructor arguments as they
 were passed

construct() cast every argument to T&&, so lvalues were moved from and
arguments of other types did not compile or were converted, and new_object()
passed rvalues on as lvalues.
---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 07ef526..2b9c148 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -42,7 +42,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<T>(aArgs)...);
+        new (aPtr) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
@@ -77,7 +77,7 @@ class allocator
         U* ptr = this->allocate_object<U>();
         if (ptr)
         {
-            this->construct(ptr, aArgs...);
+            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
         }
         return ptr;
     }
-- 
2.43.0


From 6be79984c21ea7e0ad45639032c4aedd655f76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 11/29] fix: allocators of different element types convert and
 compare

The converting constructor and the mixed comparison used a private member of
another specialisation, so neither could be instantiated.
---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 2b9c148..3617cf1 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -21,7 +21,7 @@ class allocator
     allocator& operator=(const allocator&) = delete;
 
     template <typename U>
-    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource_)
+    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource())
     {
     }
 
@@ -113,7 +113,7 @@ class allocator
 template <class T1, class T2>
 bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
 {
-    return *aLhs.resource_ == *aRhs.resource_;
+    return *aLhs.resource() == *aRhs.resource();
 }
 
 template <class T1, class T2>
-- 
2.43.0


From b2547a2f4f14debacd63df091e1a3c8335cd765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 12/29] fix: all translation units share one system and one
 null resource

The accessors were static, so every translation unit had its own singletons:
the default resource was not equal to the system resource of any unit but
the one that happened to initialise it.
---
 sources/include/utils/memory/memory.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8daca9f..80fef1f 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -218,8 +218,8 @@ class memory_resource
     deallocate_t deallocate_{};
 };
 
-static memory_resource *system_memory_resource() noexcept;
-static memory_resource *null_memory_resource() noexcept;
+inline memory_resource *system_memory_resource() noexcept;
+inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
@@ -286,25 +286,25 @@ class null_memory_resource : public memory_resource
 };
 }  // namespace details
 
-[[maybe_unused]] static memory_resource *system_memory_resource() noexcept
+inline memory_resource *system_memory_resource() noexcept
 {
     static details::system_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *null_memory_resource() noexcept
+inline memory_resource *null_memory_resource() noexcept
 {
     static details::null_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *set_default_resource(
+inline memory_resource *set_default_resource(
     memory_resource *aResource) noexcept
 {
     return details::default_resource.exchange(aResource);
 }
 
-[[maybe_unused]] static memory_resource *get_default_resource() noexcept
+inline memory_resource *get_default_resource() noexcept
 {
     return details::default_resource.load();
 }
-- 
2.43.0


From 5f3a55e5f65c02999089dec2a2de79aecae706cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 13/29] fix: assigning to a timer finishes the timing it held

Move assignment overwrote a running timer without calling its finish
callback, and assigning a timer to itself threw its own callback away.
---
 sources/include/utils/timer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 002ea87..ebb3fac 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -123,6 +123,14 @@ class timer
     timer &operator=(const timer &) = delete;
     timer &operator=(timer &&aOther) noexcept
     {
+        if (this == &aOther)
+        {
+            return *this;
+        }
+        if (callback_)
+        {
+            std::invoke(callback_, data_, *this);
+        }
         start_ = aOther.start_;
         callback_ = aOther.callback_;
         aOther.callback_ = nullptr;
-- 
2.43.0


From 3d8849f9764fc654e3d8d5ba40f4220adfdf3b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 14/29] fix: timers move and destroy the callable they store

The stored callable was copied byte by byte on every move and never
destroyed, so callables that own something leaked it, and callables that
refer to themselves dangled after a move.
---
 sources/include/utils/timer.h | 50 +++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index ebb3fac..00bddc4 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -20,6 +20,7 @@ struct timer_impl
     using callback_ref_t = void (&)(const Timer &) noexcept;
 
     using callback_t = void (*)(std::byte *, const Timer &) noexcept;
+    using relocate_t = void (*)(std::byte *, std::byte *) noexcept;
 
     template <typename Callable>
     struct storable
@@ -38,29 +39,25 @@ struct timer_impl
     static void call_finish_callback(std::byte *aData,
                                      const Timer &aTimer) noexcept
     {
-        callback<FinishCallback>(aData)(aTimer);
+        FinishCallback &stored = callback<FinishCallback>(aData);
+        stored(aTimer);
+        stored.~FinishCallback();
     }
 
-    template <typename T>
-    static T &callback(std::byte *aData) noexcept
+    template <typename FinishCallback>
+    static void relocate_callback(std::byte *aDst, std::byte *aSrc) noexcept
     {
-        return *reinterpret_cast<T *>(aData);
+        FinishCallback &stored = callback<FinishCallback>(aSrc);
+        new (aDst) FinishCallback(std::move(stored));
+        stored.~FinishCallback();
     }
 
-    template <std::size_t... I>
-    static constexpr void copy_impl(std::byte (&aDst)[sizeof...(I)],
-                                    std::byte (&aSrc)[sizeof...(I)],
-                                    std::index_sequence<I...>) noexcept
+    template <typename T>
+    static T &callback(std::byte *aData) noexcept
     {
-        (..., (aDst[I] = aSrc[I]));
+        return *reinterpret_cast<T *>(aData);
     }
 
-    template <std::size_t Size>
-    static constexpr void copy(std::byte (&aDst)[Size],
-                               std::byte (&aSrc)[Size]) noexcept
-    {
-        copy_impl(aDst, aSrc, std::make_index_sequence<Size>{});
-    }
 };
 
 template <std::size_t MaxCallbackAlignment, std::size_t MaxCallbackSize,
@@ -93,6 +90,8 @@ class timer
         : start_{impl::clock::now()}
         , callback_{&impl::template call_finish_callback<
               typename impl::template storable_t<FinishCallback>>}
+        , relocate_{&impl::template relocate_callback<
+              typename impl::template storable_t<FinishCallback>>}
     {
         using stored_callback_t =
             typename impl::template storable_t<FinishCallback>;
@@ -115,10 +114,11 @@ class timer
     timer() = delete;
     timer(const timer &) = delete;
     timer(timer &&aOther) noexcept
-        : start_(aOther.start_), callback_(aOther.callback_)
+        : start_(aOther.start_)
+        , callback_(aOther.callback_)
+        , relocate_(aOther.relocate_)
     {
-        impl::template copy(data_, aOther.data_);
-        aOther.callback_ = nullptr;
+        take_callback(aOther);
     }
     timer &operator=(const timer &) = delete;
     timer &operator=(timer &&aOther) noexcept
@@ -133,8 +133,8 @@ class timer
         }
         start_ = aOther.start_;
         callback_ = aOther.callback_;
-        aOther.callback_ = nullptr;
-        impl::template copy(data_, aOther.data_);
+        relocate_ = aOther.relocate_;
+        take_callback(aOther);
         return *this;
     }
 
@@ -165,8 +165,18 @@ class timer
     void reset() noexcept { start_ = clock::now(); }
 
    private:
+    void take_callback(timer &aOther) noexcept
+    {
+        if (callback_)
+        {
+            relocate_(data_, aOther.data_);
+            aOther.callback_ = nullptr;
+        }
+    }
+
     time_point start_ = clock::now();
     typename impl::callback_t callback_{};
+    typename impl::relocate_t relocate_{};
     alignas(MaxCallbackAlignment) std::byte data_[MaxCallbackSize]{};
 };
 }  // namespace details
-- 
2.43.0


From 72eae634e2004274ad7b9dbbf2bc7cb52cdcce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 15/29] fix: checked aborts print file names that contain a
 percent sign

---
 sources/include/utils/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 677b675..26fbc55 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -47,8 +47,9 @@
 #ifndef UTILS_ABORT_IF
 #define UTILS_ABORT_IF_HELPER(condition, format_str, ...)                \
     utils::abort_if(condition,                                           \
-                    "[ERROR]\n" UTILS_FILE_LINE "\nfunc: %s" format_str, \
-                    UTILS_FUNC, __VA_ARGS__)
+                    "[ERROR]\nfile: %s\nline: " UTILS_STR(__LINE__)      \
+                    "\nfunc: %s" format_str,                             \
+                    __FILE__, UTILS_FUNC, __VA_ARGS__)
 #define UTILS_ABORT_IF(...) UTILS_ABORT_IF_HELPER(__VA_ARGS__, "", "")
 #else
 #error "UTILS_ABORT_IF already defined somewhere"
-- 
2.43.0


From 33fa286991b60a0955cf05f245e50149c9114876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:19 +0000
Subject: [PATCH 16/29] fix: timer assignment takes the new timing before it
 finishes the old one

---
 sources/include/utils/timer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 00bddc4..4f7aae0 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -127,14 +127,15 @@ class timer
         {
             return *this;
         }
+        timer taken{std::move(aOther)};
         if (callback_)
         {
             std::invoke(callback_, data_, *this);
         }
-        start_ = aOther.start_;
-        callback_ = aOther.callback_;
-        relocate_ = aOther.relocate_;
-        take_callback(aOther);
+        start_ = taken.start_;
+        callback_ = taken.callback_;
+        relocate_ = taken.relocate_;
+        take_callback(taken);
         return *this;
     }
 
-- 
2.43.0


From b57d5c3a2fdb6ea3f87cc7ca390665021f132ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:19 +0000
Subject: [PATCH 17/29] fix: checked aborts flush their message before they
 abort

---
 sources/include/utils/common.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 26fbc55..d89893e 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -455,6 +455,7 @@ inline bool is_aligned(void const* aPtr) noexcept
             va_start(arglist, aFormat);
             vfprintf(stderr, aFormat, arglist);
             va_end(arglist);
+            std::fflush(stderr);
         }
         std::abort();
     }
-- 
2.43.0


From dd85f10c768039d8f3cd01c75c7c7962aeaf4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:08 +0000
Subject: [PATCH 18/29] fix: fast_pimpl builds its object in its storage and
 finds it there

A type with its own placement operator new was constructed wherever that
operator pointed, and one with its own unary operator& at whatever address
that returned; operator-> returned that address too.
---
 sources/include/utils/fast_pimpl.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index 6514c47..c870546 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -1,6 +1,7 @@
 #ifndef utils_fast_pimpl_h
 #define utils_fast_pimpl_h
 
+#include <memory>
 #include <new>
 #include <type_traits>
 
@@ -22,37 +23,37 @@ class fast_pimpl final
 
     fast_pimpl() noexcept(std::is_nothrow_constructible_v<T>)
     {
-        new (&get()) T();
+        ::new (static_cast<void *>(data_)) T();
     }
 
     template <typename... Args>
     explicit fast_pimpl(forwarding_constructor, Args &&...args) noexcept(
         std::is_nothrow_constructible_v<T, Args...>)
     {
-        new (&get()) T(std::forward<Args>(args)...);
+        ::new (static_cast<void *>(data_)) T(std::forward<Args>(args)...);
     }
 
     fast_pimpl(const fast_pimpl &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther.get());
+        ::new (static_cast<void *>(data_)) T(aOther.get());
     }
 
     fast_pimpl(const T &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther);
+        ::new (static_cast<void *>(data_)) T(aOther);
     }
 
     fast_pimpl(fast_pimpl &&aOther) noexcept(
         std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther.get()));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther.get()));
     }
 
     fast_pimpl(T &&aOther) noexcept(std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther));
     }
 
     fast_pimpl &operator=(const fast_pimpl &aOther) noexcept(
@@ -83,9 +84,9 @@ class fast_pimpl final
         return *this;
     }
 
-    T *operator->() noexcept { return &get(); }
+    T *operator->() noexcept { return std::addressof(get()); }
 
-    const T *operator->() const noexcept { return &get(); }
+    const T *operator->() const noexcept { return std::addressof(get()); }
 
     template <std::size_t ActualSize, std::size_t ActualAlignment>
     static void validate() noexcept
-- 
2.43.0


From 74bacec598f32d79227f6b2e9004a536f9fe428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:08 +0000
Subject: [PATCH 19/29] fix: allocator constructs objects with the global
 placement new

A type with its own placement operator new was constructed wherever that
operator pointed, and one with only its own operator new did not compile.
---
 sources/include/utils/memory/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 3617cf1..8d4c728 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -42,7 +42,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<Args>(aArgs)...);
+        ::new (static_cast<void*>(aPtr)) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
-- 
2.43.0


From b8ea8cce65970ecf848864f6d7506f6fd6166233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:08 +0000
Subject: [PATCH 20/29] fix: timer constructs callables in its own storage

A callable with its own placement operator new or its own unary operator&
was constructed elsewhere, and the storage was then run and destroyed as if
it held one.
---
 sources/include/utils/timer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 4f7aae0..c53c87c 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -48,7 +48,7 @@ struct timer_impl
     static void relocate_callback(std::byte *aDst, std::byte *aSrc) noexcept
     {
         FinishCallback &stored = callback<FinishCallback>(aSrc);
-        new (aDst) FinishCallback(std::move(stored));
+        ::new (static_cast<void *>(aDst)) FinishCallback(std::move(stored));
         stored.~FinishCallback();
     }
 
@@ -101,12 +101,11 @@ class timer
         static_assert(std::is_invocable_r_v<void, FinishCallback, duration>);
         if constexpr (std::is_same_v<FinishCallback, callback_ref_t>)
         {
-            new (&impl::template callback<stored_callback_t>(data_))
-                stored_callback_t(aCallback);
+            ::new (static_cast<void *>(data_)) stored_callback_t(aCallback);
         }
         else
         {
-            new (&impl::template callback<stored_callback_t>(data_))
+            ::new (static_cast<void *>(data_))
                 stored_callback_t(std::forward<FinishCallback>(aCallback));
         }
     }
-- 
2.43.0


From 1170acf06cfded8b46f0ac035a0aa3479209c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:45 +0000
Subject: [PATCH 21/29] fix: make_array copies its value into every element

Every element was moved from the one value, so with types that own something
only the first element received it.
---
 sources/include/utils/common.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index d89893e..59e4240 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -170,16 +170,23 @@ constexpr auto concatenate_arrays(A1&& aArray1, A2&& aArray2,
 }
 
 template <typename T, std::size_t I>
-constexpr decltype(auto) make_element_for_index(T&& aValue) noexcept
+constexpr decltype(auto) make_element_for_index(T& aValue) noexcept
 {
-    return std::forward<T>(aValue);
+    if constexpr (std::is_copy_constructible_v<T>)
+    {
+        return static_cast<const T&>(aValue);
+    }
+    else
+    {
+        return std::move(aValue);
+    }
 }
 
 template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
     [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
 {
-    return {make_element_for_index<T, I>(std::move(aValue))...};
+    return {make_element_for_index<T, I>(aValue)...};
 }
 
 template <std::size_t... I>
-- 
2.43.0


From e128ea84706ad068e8063c93d525e6d6cbce06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:50 +0000
Subject: [PATCH 22/29] fix: constant-evaluated memmove handles a destination
 inside the source

It always copied forwards, so a range moved a few bytes up repeated its first
bytes, unlike at run time.
---
 sources/include/utils/memory/memory.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 80fef1f..cfd03e9 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -98,6 +98,17 @@ constexpr std::byte *memmove(std::byte *aDst, const std::byte *aSrc,
         {
             return aDst;
         }
+        for (std::size_t i = 1; i < aCount; ++i)
+        {
+            if (aSrc + i == aDst)
+            {
+                for (std::size_t j = aCount; j > 0; --j)
+                {
+                    *(aDst + j - 1) = *(aSrc + j - 1);
+                }
+                return aDst;
+            }
+        }
         for (std::size_t i = 0; i < aCount; ++i)
         {
             *(aDst + i) = *(aSrc + i);
-- 
2.43.0


From c80333046c933fd73d6fa826589b080e3d55d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:03 +0000
Subject: [PATCH 23/29] fix: wiping memory is not optimized away

---
 sources/include/utils/memory/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index cfd03e9..8aee877 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -66,7 +66,12 @@ inline constexpr void secure_zero_memory(std::byte *aPtr,
 #ifdef __STDC_LIB_EXT1__
         sysops::memory::ops::memset_s(aPtr, aSize, '\0', aSize);
 #else
-        handmade_zero_mem(aPtr, aSize);
+        // Plain stores to memory nobody reads any more may be optimized away
+        volatile std::byte *const buf = aPtr;
+        for (std::size_t i = 0; i < aSize; ++i)
+        {
+            *(buf + i) = std::byte{};
+        }
 #endif
 #endif
     }
-- 
2.43.0


From cf1cb45da1bb7dceb2dfd84658b9be0da3158203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:39 +0000
Subject: [PATCH 24/29] fix: system and null resource outlive every user

The function-local static objects were destroyed with the other static
objects of the program, while a static destructor that runs later, or a
thread that is still running, can reach them through the default
resource. Construct them in static storage that is never destroyed.
---
 sources/include/utils/memory/memory.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8aee877..a6d3ff4 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -9,6 +9,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <functional>
+#include <new>
 #include <system_error>
 #include <type_traits>
 
@@ -304,14 +305,22 @@ class null_memory_resource : public memory_resource
 
 inline memory_resource *system_memory_resource() noexcept
 {
-    static details::system_memory_resource r;
-    return &r;
+    // Never destroyed: usable until the program has ended
+    alignas(details::system_memory_resource) static std::byte
+        buf[sizeof(details::system_memory_resource)];
+    static memory_resource *const r =
+        ::new (static_cast<void *>(buf)) details::system_memory_resource;
+    return r;
 }
 
 inline memory_resource *null_memory_resource() noexcept
 {
-    static details::null_memory_resource r;
-    return &r;
+    // Never destroyed: usable until the program has ended
+    alignas(details::null_memory_resource) static std::byte
+        buf[sizeof(details::null_memory_resource)];
+    static memory_resource *const r =
+        ::new (static_cast<void *>(buf)) details::null_memory_resource;
+    return r;
 }
 
 inline memory_resource *set_default_resource(
-- 
2.43.0


From bbcfd58187d3c55b8c4bd911fbe41f5e6290f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:04 +0000
Subject: [PATCH 25/29] fix: array builders let exceptions of their elements
 through

concatenate_arrays and the helpers behind it and behind make_array were
noexcept whatever their elements do, so that a copy that throws (a string
without memory) ended the program. They are noexcept when building the
elements is.
---
 sources/include/utils/common.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 59e4240..12613ee 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -138,11 +138,20 @@ inline constexpr std::size_t std_array_sizes_sum = (0 + ... +
 
 namespace details
 {
+// Whether an element built from one of A&& and moved on from there can throw
+template <typename A, typename E = std_array_data_t<A>,
+          typename From = std::conditional_t<
+              std::is_const_v<std::remove_reference_t<A>>, const E, E>>
+inline constexpr bool is_nothrow_array_source_v =
+    std::is_nothrow_move_constructible_v<E>&& std::is_nothrow_constructible_v<
+        E, std::conditional_t<std::is_lvalue_reference_v<A>, From&, From&&>>;
+
 template <typename A1, typename A2, std::size_t... i1, std::size_t... i2,
           typename = std::enable_if_t<is_same_data_std_arrays<A1, A2>>>
-static constexpr auto concatenate_2_arrays(A1&& aArray1, A2&& aArray2,
-                                           std::index_sequence<i1...>,
-                                           std::index_sequence<i2...>) noexcept
+static constexpr auto concatenate_2_arrays(
+    A1&& aArray1, A2&& aArray2, std::index_sequence<i1...>,
+    std::index_sequence<i2...>) noexcept(is_nothrow_array_source_v<A1>&&
+                                             is_nothrow_array_source_v<A2>)
     -> std::array<std_array_data_t<A1>, std_array_sizes_sum<A1, A2>>
 {
     return {std::get<i1>(std::forward<A1>(aArray1))...,
@@ -156,8 +165,12 @@ constexpr decltype(auto) concatenate_arrays(T&& aArray) noexcept
 }
 
 template <typename A1, typename A2, typename... RestArrays>
-constexpr auto concatenate_arrays(A1&& aArray1, A2&& aArray2,
-                                  RestArrays&&... aArrays) noexcept
+constexpr auto concatenate_arrays(
+    A1&& aArray1, A2&& aArray2,
+    RestArrays&&... aArrays) noexcept(is_nothrow_array_source_v<A1>&&
+                                          is_nothrow_array_source_v<A2> &&
+                                      (... && is_nothrow_array_source_v<
+                                                  RestArrays>))
     -> std::array<std_array_data_t<A1>,
                   std_array_sizes_sum<A1, A2, RestArrays...>>
 {
@@ -184,7 +197,10 @@ constexpr decltype(auto) make_element_for_index(T& aValue) noexcept
 
 template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
-    [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
+    [[maybe_unused]] T aValue,
+    std::index_sequence<I...>) noexcept(std::is_nothrow_constructible_v<
+                                        T, decltype(make_element_for_index<
+                                                    T, 0>(aValue))>)
 {
     return {make_element_for_index<T, I>(aValue)...};
 }
@@ -217,8 +233,10 @@ constexpr auto make_num_bits_table() noexcept
 }  // namespace details
 
 template <typename Array, typename... RestArrays>
-constexpr auto concatenate_arrays(Array&& aArray,
-                                  RestArrays&&... aArrays) noexcept
+constexpr auto concatenate_arrays(
+    Array&& aArray, RestArrays&&... aArrays) noexcept((
+    details::is_nothrow_array_source_v<Array> && ... &&
+    details::is_nothrow_array_source_v<RestArrays>))
     -> std::array<std_array_data_t<Array>,
                   std_array_sizes_sum<Array, RestArrays...>>
 {
-- 
2.43.0


From d1ab51397921a8607dfd801e59cf46bca7846ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:29 +0000
Subject: [PATCH 26/29] fix: make_zero_array value-initializes every element

One value was moved into element after element, so that with a type that
cannot be copied all elements but the first were built from a moved-from
object.
---
 sources/include/utils/common.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 12613ee..e4606e7 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -350,11 +350,20 @@ constexpr decltype(auto) sv_to_array(const std::string_view aSV) noexcept
     }
 }
 
+namespace details
+{
+template <typename T, std::size_t... I>
+constexpr std::array<T, sizeof...(I)> make_zero_array_impl(
+    std::index_sequence<I...>)
+{
+    return {(static_cast<void>(I), T{})...};
+}
+}  // namespace details
+
 template <typename T, std::size_t N>
 constexpr std::array<T, N> make_zero_array()
 {
-    return details::make_array_with_value_impl<T>(
-        T{}, std::make_index_sequence<N>{});
+    return details::make_zero_array_impl<T>(std::make_index_sequence<N>{});
 }
 
 template <class T, std::size_t N>
-- 
2.43.0


From 2bec9a521284d121ee5c1722660c6ff18f2f18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:49 +0000
Subject: [PATCH 27/29] fix: simple and monotonic resource: assignment made two
 resources hand out the same memory

---
 sources/include/utils/memory/monotonic_buffer_resource.h | 2 ++
 sources/include/utils/memory/simple_resource.h           | 1 +
 2 files changed, 3 insertions(+)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 3b77917..85fa059 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -15,6 +15,8 @@ class monotonic_buffer_resource : public memory_resource
 
    public:
     monotonic_buffer_resource(const monotonic_buffer_resource &) = delete;
+    monotonic_buffer_resource &operator=(const monotonic_buffer_resource &) =
+        delete;
     monotonic_buffer_resource(std::byte *const aBuffer, const std::size_t aSize,
                               memory_resource *aUpstream) noexcept
         : memory_resource(
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 44bac61..8d1fb16 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -176,6 +176,7 @@ class simple_resource : public memory_resource
     }
 
     simple_resource(const simple_resource &) = delete;
+    simple_resource &operator=(const simple_resource &) = delete;
     simple_resource() noexcept = delete;
     simple_resource(std::byte *const aBuffer, const std::size_t aSize,
                     memory_resource *aUpstream) noexcept
-- 
2.43.0


From c68694fa21aaed9fb9994e4aad3614d4166f3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:02 +0000
Subject: [PATCH 28/29] fix: memory_resource: assigning through the base class
 took over another kind's functions

---
 sources/include/utils/memory/memory.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index a6d3ff4..18be306 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -196,6 +196,11 @@ class memory_resource
     {
     }
 
+    // Only for derived classes: a resource of one kind assigned to one of
+    // another would take over functions that are not its own
+    memory_resource(const memory_resource &) = default;
+    memory_resource &operator=(const memory_resource &) = default;
+
    public:
     virtual ~memory_resource() = default;
     [[nodiscard]] void *allocate(
-- 
2.43.0


From bdf4de2847150c435786519070c8d18fda38210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:43 +0000
Subject: [PATCH 29/29] fix: div of unsigned operands that no signed type can
 hold

std::div(long long, long long) was given them converted to long long, so that
the result at run time differed from the one in constant evaluation.
---
 sources/include/utils/common.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index e4606e7..ff77543 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -627,7 +627,11 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
     static_assert(std::is_integral_v<T>);
     static_assert(std::is_integral_v<U>);
     using type = std::common_type_t<remove_cvref_t<T>, remove_cvref_t<U>>;
-    if (__builtin_is_constant_evaluated())
+    // std::div works on signed types only: none of them holds every value of
+    // the widest unsigned types.
+    constexpr bool kFitsStdDiv =
+        std::is_signed_v<type> || (sizeof(type) < sizeof(long long));
+    if (__builtin_is_constant_evaluated() || !kFitsStdDiv)
     {
         return div_t<type>{static_cast<type>(static_cast<type>(aNumerator) /
                                              static_cast<type>(aDenominator)),
-- 
2.43.0

