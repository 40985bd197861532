From 6b053a6db457b5c21e0380113b8f54ad52b9620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 01/45] fix: thread_pool: do not share barrier storage between
 BarrierCounter shards and workers

With 61 to 63 threads, the counters used by BarrierCounter aliased the
per-worker barrier epochs of the last threads. A leftover count equal to the
current epoch made BarrierOrdered/BarrierGroup consider a worker as arrived
before it had finished, so a task could run twice.
---
 hwy/contrib/thread_pool/thread_pool.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 0d6a518..6fbcb21 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -85,6 +85,8 @@ static constexpr int kVerbosity = HWY_POOL_VERBOSITY;
 // cluster (cores sharing a cache), because this improves locality and barrier
 // latency. In that case, this is a generous upper bound.
 static constexpr size_t kMaxThreads = 63;
+// For `BarrierCounter`, which uses separate storage per shard.
+static constexpr size_t kMaxShards = 4;
 
 // Generates a random permutation of [0, size). O(1) storage.
 class ShuffledIota {
@@ -650,6 +652,7 @@ struct WaitSpinSeparate {
 template <size_t kShards>
 class BarrierCounter {
   static_assert(kShards == 1 || kShards == 2 || kShards == 4, "");  // pow2
+  static_assert(kShards <= kMaxShards, "");
 
  public:
   BarrierType Type() const {
@@ -660,9 +663,10 @@ class BarrierCounter {
 
   void Reset(Worker* workers) const {
     for (size_t i = 0; i < kShards; ++i) {
-      // Use last worker(s) to avoid contention with other stores to the Worker.
-      // Note that there are kMaxThreads + 1 workers, hence i == 0 is the last.
-      workers[kMaxThreads - i].StoreBarrier(0);
+      // Use storage after the worker threads to avoid contention with other
+      // stores to the Worker, and because `BarrierOrdered`/`BarrierGroup` use
+      // the same field: a leftover count must not look like their epoch.
+      workers[kMaxThreads + i].StoreBarrier(0);
     }
   }
 
@@ -671,7 +675,7 @@ class BarrierCounter {
                      uint32_t /*epoch*/) const {
     const size_t shard = worker->Index() & (kShards - 1);
     const auto kAcqRel = std::memory_order_acq_rel;
-    worker->AllWorkers()[kMaxThreads - shard].MutableBarrier().fetch_add(
+    worker->AllWorkers()[kMaxThreads + shard].MutableBarrier().fetch_add(
         1, kAcqRel);
   }
 
@@ -686,8 +690,8 @@ class BarrierCounter {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads + 0].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 1].Barrier().load(kAcq);
         if (sum == num_threads) break;
       }
     }
@@ -695,10 +699,10 @@ class BarrierCounter {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 2].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 3].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads + 0].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 1].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 2].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 3].Barrier().load(kAcq);
         if (sum == num_threads) break;
       }
     }
@@ -1279,7 +1283,8 @@ class alignas(HWY_ALIGNMENT) ThreadPool {
   // bind it to the NUMA node's memory. Not stored inside `WorkerLifecycle`
   // because that class would be initialized after `workers_`.
   alignas(HWY_ALIGNMENT) uint8_t
-      worker_bytes_[sizeof(pool::Worker) * (pool::kMaxThreads + 1)];
+      worker_bytes_[sizeof(pool::Worker) *
+                    (pool::kMaxThreads + pool::kMaxShards)];
 };
 
 }  // namespace hwy
-- 
2.43.0


From 702509507bce54b1c6818cf89f0ffcc962a188a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 02/45] fix: thread_pool: task indices wrapped around for
 ranges ending near 2^64

Workers reserve past the end of a range (at most once each) and add their index
to begin; both wrapped to zero for end > 2^64 - number of workers, so the
closure was called with tasks outside [begin, end).
---
 hwy/contrib/thread_pool/thread_pool.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 6fbcb21..405144c 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -346,7 +346,8 @@ class alignas(HWY_ALIGNMENT) Worker {  // HWY_ALIGNMENT bytes
                                      static_cast<size_t>(num_victims_));
   }
 
-  // Returns the next task to execute. If >= MyEnd(), it must be skipped.
+  // Returns the next task to execute, relative to the first task in `Tasks`.
+  // If >= MyEnd(), it must be skipped.
   uint64_t WorkerReserveTask() {
     // TODO(janwas): replace with cooperative work-stealing.
     return my_begin_.fetch_add(1, std::memory_order_relaxed);
@@ -456,7 +457,9 @@ class alignas(8) Tasks {
   }
 
   // Assigns workers their share of `[begin, end)`. Called from the main
-  // thread; workers are initializing or spinning for a command.
+  // thread; workers are initializing or spinning for a command. Their ranges
+  // are relative to `begin` because workers increment past the end of a range,
+  // which must not wrap around for `end` close to 2^64.
   static void DivideRangeAmongWorkers(const uint64_t begin, const uint64_t end,
                                       const Divisor64& div_workers,
                                       Worker* workers) {
@@ -472,13 +475,13 @@ class alignas(8) Tasks {
     const size_t remainder =
         static_cast<size_t>(div_workers.Remainder(num_tasks));
 
-    uint64_t my_begin = begin;
+    uint64_t my_begin = 0;
     for (size_t worker = 0; worker < num_workers; ++worker) {
       const uint64_t my_end = my_begin + min_tasks + (worker < remainder);
       workers[worker].SetRange(my_begin, my_end);
       my_begin = my_end;
     }
-    HWY_DASSERT(my_begin == end);
+    HWY_DASSERT(my_begin == num_tasks);
   }
 
   // Runs the worker's assigned range of tasks, plus work stealing if needed.
@@ -497,12 +500,12 @@ class alignas(8) Tasks {
     const uint64_t end = end_.load(kAcq);
     HWY_DASSERT(begin <= end);
 
-    const uint64_t task = begin + worker;
-    // We might still have more workers than tasks, so check first.
-    if (HWY_LIKELY(task < end)) {
+    // We might still have more workers than tasks, so check first. Note that
+    // `begin + worker` may wrap around if there is no such task.
+    if (HWY_LIKELY(worker < end - begin)) {
       const void* opaque = Opaque();
       const RunFunc func = Func();
-      func(opaque, task, worker);
+      func(opaque, begin + worker, worker);
     }
   }
 
@@ -521,6 +524,7 @@ class alignas(8) Tasks {
   HWY_POOL_PROFILE void WorkerRunWithStealing(Worker* worker) const {
     Worker* workers = worker->AllWorkers();
     const size_t index = worker->Index();
+    const uint64_t begin = begin_.load(kAcq);
     const RunFunc func = Func();
     const void* opaque = Opaque();
 
@@ -542,7 +546,7 @@ class alignas(8) Tasks {
         }
         // Pass the index we are actually running on; this is important
         // because it is the TLS index for user code.
-        func(opaque, task, index);
+        func(opaque, begin + task, index);
       }
     }
   }
-- 
2.43.0


From 391d7b6e2d72b2939bc4736f43b0fcf3503eaed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 03/45] fix: bit_set: BitSet4096 storage was too small if
 kMaxSize is not a multiple of 64

---
 hwy/bit_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/bit_set.h b/hwy/bit_set.h
index f8f921b..29282ea 100644
--- a/hwy/bit_set.h
+++ b/hwy/bit_set.h
@@ -150,7 +150,7 @@ class BitSet4096 {
  private:
   static_assert(kMaxSize <= 64 * 64, "One BitSet64 insufficient");
   BitSet64 nonzero_;
-  BitSet64 bits_[kMaxSize / 64];
+  BitSet64 bits_[(kMaxSize + 63) / 64];
 };
 
 }  // namespace hwy
-- 
2.43.0


From 3f16a1d4f815d47e3a252578f7e718b1e07c02bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 04/45] fix: aligned_allocator: MakeUniqueAligned constructed
 an object at null if allocation failed

---
 hwy/aligned_allocator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index d2f4e84..73b8ebb 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -118,8 +118,8 @@ template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
                                                void* opaque, Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T), alloc, opaque));
-  return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
-                             AlignedDeleter(free, opaque));
+  if (ptr != nullptr) new (ptr) T(std::forward<Args>(args)...);
+  return AlignedUniquePtr<T>(ptr, AlignedDeleter(free, opaque));
 }
 
 // Similar to MakeUniqueAlignedWithAlloc but using the default alloc/free
@@ -127,8 +127,8 @@ AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
 template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T)));
-  return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
-                             AlignedDeleter());
+  if (ptr != nullptr) new (ptr) T(std::forward<Args>(args)...);
+  return AlignedUniquePtr<T>(ptr, AlignedDeleter());
 }
 
 template <class T>
-- 
2.43.0


From b03e5808a3a69675a41b22b262c54ee65db1466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 05/45] fix: aligned_allocator: AlignedAllocator::allocate
 ignored overflow of the byte count

---
 hwy/aligned_allocator.h | 56 ++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 73b8ebb..70ebf7b 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -131,6 +131,32 @@ AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   return AlignedUniquePtr<T>(ptr, AlignedDeleter());
 }
 
+// Helpers for array allocators (avoids overflow)
+namespace detail {
+
+// Returns x such that 1u << x == n (if n is a power of two).
+static inline constexpr size_t ShiftCount(size_t n) {
+  return (n <= 1) ? 0 : 1 + ShiftCount(n / 2);
+}
+
+template <typename T>
+T* AllocateAlignedItems(size_t items, AllocPtr alloc_ptr, void* opaque_ptr) {
+  constexpr size_t kSize = sizeof(T);
+
+  constexpr bool kIsPow2 = (kSize & (kSize - 1)) == 0;
+  constexpr size_t kBits = ShiftCount(kSize);
+  static_assert(!kIsPow2 || (1ull << kBits) == kSize, "ShiftCount has a bug");
+
+  const size_t bytes = kIsPow2 ? items << kBits : items * kSize;
+  const size_t check = kIsPow2 ? bytes >> kBits : bytes / kSize;
+  if (check != items) {
+    return nullptr;  // overflowed
+  }
+  return static_cast<T*>(AllocateAlignedBytes(bytes, alloc_ptr, opaque_ptr));
+}
+
+}  // namespace detail
+
 template <class T>
 struct AlignedAllocator {
   using value_type = T;
@@ -146,8 +172,8 @@ struct AlignedAllocator {
                   "AlignedAllocator only supports integer types");
     static_assert(sizeof(V) <= sizeof(std::size_t),
                   "V n must be smaller or equal size_t to avoid overflow");
-    return static_cast<value_type*>(
-        AllocateAlignedBytes(static_cast<std::size_t>(n) * sizeof(value_type)));
+    return detail::AllocateAlignedItems<value_type>(static_cast<std::size_t>(n),
+                                                    nullptr, nullptr);
   }
 
   template <class V>
@@ -171,32 +197,6 @@ constexpr bool operator!=(const AlignedAllocator<T>&,
 template <class T>
 using AlignedVector = std::vector<T, AlignedAllocator<T>>;
 
-// Helpers for array allocators (avoids overflow)
-namespace detail {
-
-// Returns x such that 1u << x == n (if n is a power of two).
-static inline constexpr size_t ShiftCount(size_t n) {
-  return (n <= 1) ? 0 : 1 + ShiftCount(n / 2);
-}
-
-template <typename T>
-T* AllocateAlignedItems(size_t items, AllocPtr alloc_ptr, void* opaque_ptr) {
-  constexpr size_t kSize = sizeof(T);
-
-  constexpr bool kIsPow2 = (kSize & (kSize - 1)) == 0;
-  constexpr size_t kBits = ShiftCount(kSize);
-  static_assert(!kIsPow2 || (1ull << kBits) == kSize, "ShiftCount has a bug");
-
-  const size_t bytes = kIsPow2 ? items << kBits : items * kSize;
-  const size_t check = kIsPow2 ? bytes >> kBits : bytes / kSize;
-  if (check != items) {
-    return nullptr;  // overflowed
-  }
-  return static_cast<T*>(AllocateAlignedBytes(bytes, alloc_ptr, opaque_ptr));
-}
-
-}  // namespace detail
-
 // Aligned memory equivalent of make_unique<T[]> for array types using the
 // custom allocators alloc/free. This function calls the constructor with the
 // passed Args... on every created item. The destructor of each element will be
-- 
2.43.0


From 2fcd5ae4de0914aa54468338b95fb0dc49868c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 06/45] fix: image: Image3 row accessors did not compile; also
 respect each plane's own stride

---
 hwy/contrib/image/image.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 4f578aa..db193de 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -290,12 +290,7 @@ class Image3 {
                 static_cast<int>(y), static_cast<int>(ysize()));
     }
 #endif
-    // Use the first plane's stride because the compiler might not realize they
-    // are all equal. Thus we only need a single multiplication for all planes.
-    const size_t row_offset = y * planes_[0].bytes_per_row();
-    const void* row = planes_[c].bytes() + row_offset;
-    return static_cast<const T * HWY_RESTRICT>(
-        HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT));
+    return planes_[c].MutableRow(y);
   }
 
  private:
-- 
2.43.0


From 8134678854ace297043e6347add09d41062f8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 07/45] fix: image: Rect clamping overflowed for very large
 size_max

---
 hwy/contrib/image/image.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index db193de..cd9a068 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -369,8 +369,9 @@ class Rect {
   // Returns size_max, or whatever is left in [begin, end).
   static constexpr size_t ClampedSize(size_t begin, size_t size_max,
                                       size_t end) {
-    return (begin + size_max <= end) ? size_max
-                                     : (end > begin ? end - begin : 0);
+    // Subtract only if begin < end: begin + size_max could overflow.
+    return (begin >= end) ? 0
+                          : (size_max <= end - begin ? size_max : end - begin);
   }
 
   size_t x0_;
-- 
2.43.0


From 56b7e50ab768311ec17960a9863982406edbcd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 08/45] fix: MaskedAbs and MaskedAbsOr also accept
 floating-point vectors

---
 hwy/ops/generic_ops-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 4415f30..fadfd17 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -896,13 +896,13 @@ HWY_API V SaturatedAbs(V v) {
 #endif
 
 // ------------------------------ MaskedAbsOr
-template <class V, HWY_IF_SIGNED_V(V), class M>
+template <class V, HWY_IF_NOT_UNSIGNED_V(V), class M>
 HWY_API V MaskedAbsOr(V no, M m, V v) {
   return IfThenElse(m, Abs(v), no);
 }
 
 // ------------------------------ MaskedAbs
-template <class V, HWY_IF_SIGNED_V(V), class M>
+template <class V, HWY_IF_NOT_UNSIGNED_V(V), class M>
 HWY_API V MaskedAbs(M m, V v) {
   return IfThenElseZero(m, Abs(v));
 }
-- 
2.43.0


From fcbe85af244dd5595172f6f83ed315d5bd71350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 09/45] fix: EMU128 floating-point division by zero follows
 IEEE-754, as on other targets

---
 hwy/ops/emu128-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 6ac7a50..f7c1b72 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -848,7 +848,7 @@ HWY_API Vec128<T, N> operator*(Vec128<T, N> a, Vec128<T, N> b) {
 template <typename T, size_t N, HWY_IF_FLOAT(T)>
 HWY_API Vec128<T, N> operator/(Vec128<T, N> a, Vec128<T, N> b) {
   for (size_t i = 0; i < N; ++i) {
-    a.raw[i] = (b.raw[i] == T{0}) ? 0 : a.raw[i] / b.raw[i];
+    a.raw[i] = a.raw[i] / b.raw[i];
   }
   return a;
 }
-- 
2.43.0


From 6f4177beaf9d4723007ead10b1a2a81c6eecaf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 10/45] fix: AllBits0 treated a floating-point -0.0, whose sign
 bit is set, as all bits clear

---
 hwy/ops/generic_ops-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index fadfd17..bc0196a 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -7914,7 +7914,8 @@ HWY_API bool AllBits1(D d, V v) {
 
 template <class D, class V = VFromD<D>>
 HWY_API bool AllBits0(D d, V v) {
-  return AllTrue(d, Eq(v, Zero(d)));
+  const RebindToUnsigned<decltype(d)> du;
+  return AllTrue(du, Eq(BitCast(du, v), Zero(du)));
 }
 #endif  // HWY_NATIVE_ALLZEROS
 
-- 
2.43.0


From 00b8c5f9e3d2c8814fa7b3b4d3f6ac5a8dd34a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 11/45] fix: Ne of NaN is true on AVX2 and AVX3, as for != and
 on all other targets

---
 hwy/ops/x86_128-inl.h |  6 +++---
 hwy/ops/x86_256-inl.h | 10 +++++-----
 hwy/ops/x86_512-inl.h |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 3f5c223..2040b97 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -2674,19 +2674,19 @@ HWY_API Mask128<float16_t, N> operator!=(Vec128<float16_t, N> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 template <size_t N>
 HWY_API Mask128<float, N> operator!=(Vec128<float, N> a, Vec128<float, N> b) {
-  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 template <size_t N>
 HWY_API Mask128<double, N> operator!=(Vec128<double, N> a,
                                       Vec128<double, N> b) {
-  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 7e3f405..10884f7 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1333,16 +1333,16 @@ HWY_API Mask256<float16_t> operator!=(Vec256<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
@@ -1560,10 +1560,10 @@ HWY_API Mask256<T> operator!=(Vec256<T> a, Vec256<T> b) {
   return Not(a == b);
 }
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_512-inl.h b/hwy/ops/x86_512-inl.h
index a310333..5429fa9 100644
--- a/hwy/ops/x86_512-inl.h
+++ b/hwy/ops/x86_512-inl.h
@@ -2469,17 +2469,17 @@ HWY_API Mask512<float16_t> operator!=(Vec512<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 
 HWY_API Mask512<float> operator!=(Vec512<float> a, Vec512<float> b) {
-  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask512<double> operator!=(Vec512<double> a, Vec512<double> b) {
-  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
-- 
2.43.0


From 1c9b2d333bc45339aa4af3a6f10d18794ce9a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 12/45] fix: NearestInt of double on AVX2 returned zero if
 rounding up to 2^52

---
 hwy/ops/x86_128-inl.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 2040b97..1026d0e 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -11938,14 +11938,19 @@ static HWY_INLINE VFromD<DI64> SSE2NearestI64InRange(
   const VI64 shift_int = adj_v_biased_exp + Set(di64, int64_t{-1075});
 
   const VI64 mantissa = BitCast(di64, adj_v) & Set(di64, (1LL << 52) - 1);
-  // Include implicit 1-bit if is_small[i] is 0. NOTE: the shift count may
-  // exceed 63; we rely on x86 returning zero in that case.
-  const VI64 int53 = mantissa | IfThenZeroElse(RebindMask(di64, is_small),
-                                               Set(di64, 1LL << 52));
+  // Include the implicit 1-bit. NOTE: the shift count may exceed 63; we rely on
+  // x86 returning zero in that case.
+  const VI64 implicit_bit = Set(di64, 1LL << 52);
+  const VI64 int53 = mantissa | implicit_bit;
+  // If is_small[i] is 1, undo adding mant_end. This must be after the shift
+  // because adj_v[i] may have been rounded up to 2^53 in magnitude.
+  const VI64 magnitude =
+      (int53 << shift_int) -
+      IfThenElseZero(RebindMask(di64, is_small), implicit_bit);
 
   const VI64 sign_mask = BroadcastSignBit(BitCast(di64, v));
   // If the input was negative, negate the integer (two's complement).
-  return ((int53 << shift_int) ^ sign_mask) - sign_mask;
+  return (magnitude ^ sign_mask) - sign_mask;
 }
 #endif  // !HWY_ARCH_X86_64 || HWY_TARGET <= HWY_AVX2
 
-- 
2.43.0


From 4dc6d4bae6fa45d86aa68539e29248a3369f7212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 13/45] fix: SCALAR/EMU128 NearestInt of 2^31 or 2^63 and
 DemoteToNearestInt close to -2^31

---
 hwy/ops/emu128-inl.h | 10 ++++++----
 hwy/ops/scalar-inl.h |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index f7c1b72..18404f4 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1064,8 +1064,9 @@ HWY_API Vec128<MakeSigned<T>, N> NearestInt(Vec128<T, N> v) {
     const bool signbit = ScalarSignBit(v.raw[i]);
 
     if (!(abs.raw[i] < MantissaEnd<T>())) {  // Huge or NaN
-      // Check if too large to cast or NaN
-      if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+      // Check if too large to cast or NaN. Strictly less because LimitsMax is
+      // rounded up when converted to T.
+      if (!(abs.raw[i] < ConvertScalarTo<T>(LimitsMax<TI>()))) {
         ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
         continue;
       }
@@ -1104,8 +1105,9 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/,
   for (size_t i = 0; i < N; ++i) {
     const bool signbit = ScalarSignBit(v.raw[i]);
 
-    // Check if too large to cast or NaN
-    if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    // Check if too large to cast or NaN. The lower limit has a larger magnitude.
+    if (!(abs.raw[i] <=
+          ConvertScalarTo<T>(LimitsMax<TI>()) + (signbit ? 1.0 : 0.0))) {
       ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
       continue;
     }
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 36669f0..19d758f 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -857,8 +857,9 @@ HWY_API Vec1<MakeSigned<T>> NearestInt(const Vec1<T> v) {
   const bool is_sign = ScalarSignBit(v.raw);
 
   if (!(abs < MantissaEnd<T>())) {  // Huge or NaN
-    // Check if too large to cast or NaN
-    if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    // Check if too large to cast or NaN. Strictly less because LimitsMax is
+    // rounded up when converted to T.
+    if (!(abs < ConvertScalarTo<T>(LimitsMax<TI>()))) {
       return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
     }
     return Vec1<TI>(ConvertScalarTo<TI>(v.raw));
@@ -885,8 +886,8 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/, const Vec1<double> v) {
   const T abs = Abs(v).raw;
   const bool is_sign = ScalarSignBit(v.raw);
 
-  // Check if too large to cast or NaN
-  if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+  // Check if too large to cast or NaN. The lower limit has a larger magnitude.
+  if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()) + (is_sign ? 1.0 : 0.0))) {
     return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
   }
 
-- 
2.43.0


From 5426521e63b9eb1fb813b58be639710f0c00d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 14/45] fix: LoadNOr of one of two u8/i8 lanes on AVX2 returned
 the wrong default lane

---
 hwy/ops/x86_128-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 1026d0e..deeb2a8 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -3507,7 +3507,7 @@ HWY_INLINE VFromD<D> AVX2UIF8Or16LoadTrailingN(VFromD<D> /*load_mask*/, D d,
 
 template <class D, HWY_IF_T_SIZE_D(D, 1), HWY_IF_LANES_D(D, 2)>
 HWY_INLINE VFromD<D> AVX2UIF8Or16LoadTrailingNOr(
-    VFromD<D> no, VFromD<D> /*load_mask*/, D d, const TFromD<D>* HWY_RESTRICT p,
+    VFromD<D> no, VFromD<D> load_mask, D d, const TFromD<D>* HWY_RESTRICT p,
     size_t num_lanes) {
   if (num_lanes > 1) {
     return LoadU(d, p);
@@ -3515,7 +3515,7 @@ HWY_INLINE VFromD<D> AVX2UIF8Or16LoadTrailingNOr(
     if (num_lanes == 0) return no;
     // Load one, upper lane is default.
     const FixedTag<TFromD<D>, 1> d1;
-    return InterleaveLower(ResizeBitCast(d, LoadU(d1, p)), no);
+    return IfVecThenElse(load_mask, ResizeBitCast(d, LoadU(d1, p)), no);
   }
 }
 
-- 
2.43.0


From 6dbdad73005001ce9ffdcf0d65072c766278c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 15/45] fix: generic LoadNOr returned the wrong default lanes
 if those of 'no' differ

---
 hwy/ops/generic_ops-inl.h | 142 +++-----------------------------------
 1 file changed, 8 insertions(+), 134 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index bc0196a..15a128d 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -2458,17 +2458,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return detail::LoadNResizeBitCast(d, d1, LoadU(d1, p));
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 2),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 1> d1;
-
-  if (num_lanes >= 2) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  return InterleaveLower(ResizeBitCast(d, LoadU(d1, p)), no);
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2485,22 +2474,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return (num_lanes == 2) ? v_lo : InsertLane(v_lo, 2, p[2]);
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 2> d2;
-
-  if (num_lanes >= 4) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  // Two or three lanes.
-  const VFromD<D> v_lo =
-      ConcatUpperLower(d, no, ResizeBitCast(d, LoadU(d2, p)));
-  return (num_lanes == 2) ? v_lo : InsertLane(v_lo, 2, p[2]);
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2537,44 +2510,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 4> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
-  if (num_lanes >= 8) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 4;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    return Combine(d, v_trailing, LoadU(d4, p));
-  } else {
-    return ConcatUpperLower(d, no, ResizeBitCast(d, v_trailing));
-  }
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2621,60 +2556,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 8> d8;
-  const Half<decltype(d8)> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
-  if (num_lanes >= 16) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 12;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    if (leading_len >= 8) {
-      const VFromD<decltype(d8)> v_hi7 =
-          ((leading_len & 4) != 0)
-              ? Combine(d8, v_trailing, LoadU(d4, p + 8))
-              : ConcatUpperLower(d8, ResizeBitCast(d8, no),
-                                 ResizeBitCast(d8, v_trailing));
-      return Combine(d, v_hi7, LoadU(d8, p));
-    } else {
-      return ConcatUpperLower(
-          d, ResizeBitCast(d, no),
-          ResizeBitCast(d, Combine(d8, v_trailing, LoadU(d4, p))));
-    }
-  } else {
-    const Repartition<uint32_t, D> du32;
-    // lowest 4 bytes from v_trailing, next 4 from no.
-    const VFromD<decltype(du32)> lo8 =
-        InterleaveLower(ResizeBitCast(du32, v_trailing), BitCast(du32, no));
-    return ConcatUpperLower(d, ResizeBitCast(d, no), ResizeBitCast(d, lo8));
-  }
-}
-
 #if HWY_MAX_BYTES >= 32
 
 template <class D, HWY_IF_V_SIZE_GT_D(D, 16), HWY_IF_NOT_BF16_D(D)>
@@ -2693,27 +2574,20 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_GT_D(D, 16), HWY_IF_NOT_BF16_D(D)>
+#endif  // HWY_MAX_BYTES >= 32
+
+// For all other than single-lane vectors.
+template <class D, HWY_IF_LANES_GT_D(D, 1), HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
   if (num_lanes >= Lanes(d)) return LoadU(d, p);
 
-  const Half<decltype(d)> dh;
-  const size_t half_N = Lanes(dh);
-  const VFromD<decltype(dh)> no_h = LowerHalf(no);
-  if (num_lanes <= half_N) {
-    return ConcatUpperLower(d, no,
-                            ResizeBitCast(d, LoadNOr(no_h, dh, p, num_lanes)));
-  } else {
-    const VFromD<decltype(dh)> v_lo = LoadU(dh, p);
-    const VFromD<decltype(dh)> v_hi =
-        LoadNOr(no_h, dh, p + half_N, num_lanes - half_N);
-    return Combine(d, v_hi, v_lo);
-  }
+  const RebindToUnsigned<decltype(d)> du;
+  return BitCast(d, IfThenElse(FirstN(du, num_lanes),
+                               BitCast(du, LoadN(d, p, num_lanes)),
+                               BitCast(du, no)));
 }
 
-#endif  // HWY_MAX_BYTES >= 32
-
 template <class D, HWY_IF_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
                         size_t num_lanes) {
-- 
2.43.0


From 7a9d67f379680b65569f82d6a4c37a6e7b8df00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 16/45] fix: SCALAR MaskedLoad(Or) and masked gather accessed
 memory even if the mask is false

---
 hwy/ops/scalar-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 19d758f..99700b7 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1085,13 +1085,14 @@ HWY_API Vec1<T> Load(D /* tag */, const T* HWY_RESTRICT aligned) {
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoad(Mask1<T> m, D d, const T* HWY_RESTRICT aligned) {
-  return IfThenElseZero(m, Load(d, aligned));
+  // Do not access memory if the mask is false: HWY_MEM_OPS_MIGHT_FAULT is 0.
+  return m.bits ? Load(d, aligned) : Zero(d);
 }
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoadOr(Vec1<T> v, Mask1<T> m, D d,
                              const T* HWY_RESTRICT aligned) {
-  return IfThenElse(m, Load(d, aligned), v);
+  return m.bits ? Load(d, aligned) : v;
 }
 
 template <class D, HWY_IF_LANES_D(D, 1), typename T = TFromD<D>>
-- 
2.43.0


From 88d2e4aae028ddd43272e5d49e7b5aae4204fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 17/45] fix: 8-bit CompressBitsStore counted unused bits of
 vectors with less than eight lanes

---
 hwy/ops/generic_ops-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 15a128d..a013486 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -5910,7 +5910,8 @@ HWY_API size_t CompressBitsStore(V v, const uint8_t* HWY_RESTRICT bits, D d,
   for (size_t i = 0; i < Lanes(d); i += 8) {
     // Each byte worth of bits is the index of one of 256 8-byte ranges, and its
     // population count determines how far to advance the write position.
-    const size_t bits8 = bits[i / 8];
+    // Ignore unused bits, present if there are fewer than eight lanes.
+    const size_t bits8 = bits[i / 8] & ((size_t{1} << MaxLanes(d8)) - 1);
     const auto indices = Load(d8, table + bits8 * 8);
     const auto compressed = TableLookupBytes(LoadU(d8, lanes + i), indices);
     StoreU(compressed, d8, pos);
-- 
2.43.0


From 967a35239c586353c2eb5a1c967ffafbbd474b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 18/45] fix: x86 masked memory ops on partial vectors accessed
 lanes beyond the vector

---
 hwy/ops/x86_128-inl.h  | 92 +++++++++++++++++++++++++++++++-----------
 hwy/ops/x86_avx3-inl.h | 15 +++++++
 2 files changed, 83 insertions(+), 24 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index deeb2a8..11aaf13 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -3198,6 +3198,28 @@ HWY_API M FirstN(D d, size_t num) {
 #endif  // HWY_TARGET <= HWY_AVX3
 }
 
+namespace detail {
+
+// Returns `m` after clearing any elements beyond the lanes of partial vectors,
+// because these can be set, for example by comparisons. Memory operations on
+// the entire register would otherwise also access those lanes.
+template <class D, HWY_IF_V_SIZE_D(D, 16)>
+HWY_INLINE MFromD<D> ClearUnusedMask(D /* tag */, MFromD<D> m) {
+  return m;
+}
+template <class D, HWY_IF_V_SIZE_LE_D(D, 8)>
+HWY_INLINE MFromD<D> ClearUnusedMask(D d, MFromD<D> m) {
+#if HWY_TARGET <= HWY_AVX3
+  return And(m, FirstN(d, MaxLanes(d)));
+#else
+  const Full128<TFromD<D>> dfull;
+  const Mask128<TFromD<D>> mfull{m.raw};
+  return MFromD<D>{And(mfull, FirstN(dfull, MaxLanes(d))).raw};
+#endif
+}
+
+}  // namespace detail
+
 // ------------------------------ InterleaveLower
 
 // Interleaves lanes from halves of the 128-bit blocks of "a" (which provides
@@ -3249,92 +3271,106 @@ HWY_API VFromD<D> InterleaveLower(D /* tag */, VFromD<D> a, VFromD<D> b) {
 #if HWY_TARGET <= HWY_AVX3
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi8(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   return BitCast(d, VFromD<decltype(du)>{_mm_maskz_loadu_epi16(m.raw, p)});
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi32(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_maskz_loadu_epi64(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const float* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_maskz_loadu_ps(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const double* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_maskz_loadu_pd(m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_mask_loadu_epi8(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
   return BitCast(d, VFromD<decltype(du)>{
                         _mm_mask_loadu_epi16(BitCast(du, v).raw, m.raw, p)});
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_mask_loadu_epi32(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_mask_loadu_epi64(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const float* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_mask_loadu_ps(v.raw, m.raw, p)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoadOr(VFromD<D> v, MFromD<D> m, D d,
                                const double* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_mask_loadu_pd(v.raw, m.raw, p)};
 }
 
 #elif HWY_TARGET == HWY_AVX2
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   auto p_p = reinterpret_cast<const int*>(p);  // NOLINT
   return VFromD<D>{_mm_maskload_epi32(p_p, m.raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
+HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d,
                              const TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   auto p_p = reinterpret_cast<const long long*>(p);  // NOLINT
   return VFromD<D>{_mm_maskload_epi64(p_p, m.raw)};
 }
@@ -3342,12 +3378,14 @@ HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D /* tag */,
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d, const float* HWY_RESTRICT p) {
   const RebindToSigned<decltype(d)> di;
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_maskload_ps(p, BitCast(di, VecFromMask(d, m)).raw)};
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
 HWY_API VFromD<D> MaskedLoad(MFromD<D> m, D d, const double* HWY_RESTRICT p) {
   const RebindToSigned<decltype(d)> di;
+  m = detail::ClearUnusedMask(d, m);
   return VFromD<D>{_mm_maskload_pd(p, BitCast(di, VecFromMask(d, m)).raw)};
 }
 
@@ -3661,39 +3699,47 @@ HWY_API void ScalarMaskedStore(VFromD<D> v, MFromD<D> m, D d,
 #if HWY_TARGET <= HWY_AVX3
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 1)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   _mm_mask_storeu_epi8(p, m.raw, v.raw);
 }
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_T_SIZE_D(D, 2)>
 HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
   const RebindToUnsigned<decltype(d)> du;  // for float16_t
+  m = detail::ClearUnusedMask(d, m);
   _mm_mask_storeu_epi16(reinterpret_cast<uint16_t*>(p), RebindMask(du, m).raw,
                         BitCast(du, v).raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI32_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   auto pi = reinterpret_cast<int*>(p);  // NOLINT
   _mm_mask_storeu_epi32(pi, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_UI64_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D /* tag */,
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   auto pi = reinterpret_cast<long long*>(p);  // NOLINT
   _mm_mask_storeu_epi64(pi, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F32_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D, float* HWY_RESTRICT p) {
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
+                          float* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   _mm_mask_storeu_ps(p, m.raw, v.raw);
 }
 
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_F64_D(D)>
-HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D, double* HWY_RESTRICT p) {
+HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
+                          double* HWY_RESTRICT p) {
+  m = detail::ClearUnusedMask(d, m);
   _mm_mask_storeu_pd(p, m.raw, v.raw);
 }
 
@@ -3738,11 +3784,7 @@ HWY_API void BlendedStore(VFromD<D> v, MFromD<D> m, D d,
                           TFromD<D>* HWY_RESTRICT p) {
   const RebindToSigned<decltype(d)> di;
   // For partial vectors, avoid writing other lanes by zeroing their mask.
-  if (d.MaxBytes() < 16) {
-    const Full128<TFromD<D>> dfull;
-    const Mask128<TFromD<D>> mfull{m.raw};
-    m = MFromD<D>{And(mfull, FirstN(dfull, MaxLanes(d))).raw};
-  }
+  m = detail::ClearUnusedMask(d, m);
 
   // Float/double require, and unsigned ints tolerate, signed int masks.
   detail::NativeBlendedStore<D>(v, RebindMask(di, m), p);
@@ -13446,7 +13488,8 @@ HWY_API VFromD<D> LoadExpand(MFromD<D> mask, D d,
   const RebindToUnsigned<decltype(d)> du;
   using TU = TFromD<decltype(du)>;
   const TU* HWY_RESTRICT pu = reinterpret_cast<const TU*>(unaligned);
-  const MFromD<decltype(du)> mu = RebindMask(du, mask);
+  const MFromD<decltype(du)> mu =
+      RebindMask(du, detail::ClearUnusedMask(d, mask));
   return BitCast(d, detail::NativeLoadExpand(mu, du, pu));
 #else
   return Expand(LoadU(d, unaligned), mask);
@@ -13461,7 +13504,8 @@ HWY_API VFromD<D> LoadExpand(MFromD<D> mask, D d,
   const RebindToUnsigned<decltype(d)> du;
   using TU = TFromD<decltype(du)>;
   const TU* HWY_RESTRICT pu = reinterpret_cast<const TU*>(unaligned);
-  const MFromD<decltype(du)> mu = RebindMask(du, mask);
+  const MFromD<decltype(du)> mu =
+      RebindMask(du, detail::ClearUnusedMask(d, mask));
   return BitCast(d, detail::NativeLoadExpand(mu, du, pu));
 #else
   return Expand(LoadU(d, unaligned), mask);
diff --git a/hwy/ops/x86_avx3-inl.h b/hwy/ops/x86_avx3-inl.h
index 7d4a8fc..fdce9a7 100644
--- a/hwy/ops/x86_avx3-inl.h
+++ b/hwy/ops/x86_avx3-inl.h
@@ -413,6 +413,11 @@ HWY_API V CompressBits(V v, const uint8_t* HWY_RESTRICT bits) {
 template <class D, HWY_IF_T_SIZE_ONE_OF_D(D, (1 << 1) | (1 << 2))>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  // For partial vectors, avoid counting and writing other lanes.
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
+
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -435,6 +440,11 @@ template <class D, HWY_IF_NOT_FLOAT_D(D),
           HWY_IF_T_SIZE_ONE_OF_D(D, (1 << 4) | (1 << 8))>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  // For partial vectors, avoid counting and writing other lanes.
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
+
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
@@ -453,6 +463,11 @@ HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
 template <class D, HWY_IF_FLOAT3264_D(D)>
 HWY_API size_t CompressStore(VFromD<D> v, MFromD<D> mask, D d,
                              TFromD<D>* HWY_RESTRICT unaligned) {
+  // For partial vectors, avoid counting and writing other lanes.
+  HWY_IF_CONSTEXPR(HWY_MAX_LANES_D(D) < (16 / sizeof(TFromD<D>))) {
+    mask = And(mask, FirstN(d, HWY_MAX_LANES_D(D)));
+  }
+
 #if HWY_X86_SLOW_COMPRESS_STORE
   StoreU(Compress(v, mask), d, unaligned);
 #else
-- 
2.43.0


From df9f3d3298760dc5e550b639f8e99276b217a2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:51 +0000
Subject: [PATCH 19/45] fix: AVX3 CombineMasks set unused bits if those of the
 upper half were set

---
 hwy/ops/x86_128-inl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 11aaf13..25be34e 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -1068,11 +1068,13 @@ HWY_API MFromD<D> CombineMasks(D /*d*/, MFromD<Half<D>> hi,
                                MFromD<Half<D>> lo) {
 #if HWY_COMPILER_HAS_MASK_INTRINSICS
   const __mmask8 combined_mask = _kor_mask8(
-      _kshiftli_mask8(static_cast<__mmask8>(hi.raw), 1),
+      _kshiftli_mask8(_kand_mask8(static_cast<__mmask8>(hi.raw),
+                                  static_cast<__mmask8>(1)),
+                      1),
       _kand_mask8(static_cast<__mmask8>(lo.raw), static_cast<__mmask8>(1)));
 #else
   const auto combined_mask =
-      (static_cast<unsigned>(hi.raw) << 1) | (lo.raw & 1);
+      (static_cast<unsigned>(hi.raw & 1) << 1) | (lo.raw & 1);
 #endif
 
   return MFromD<D>{static_cast<decltype(MFromD<D>().raw)>(combined_mask)};
@@ -1083,11 +1085,13 @@ HWY_API MFromD<D> CombineMasks(D /*d*/, MFromD<Half<D>> hi,
                                MFromD<Half<D>> lo) {
 #if HWY_COMPILER_HAS_MASK_INTRINSICS
   const __mmask8 combined_mask = _kor_mask8(
-      _kshiftli_mask8(static_cast<__mmask8>(hi.raw), 2),
+      _kshiftli_mask8(_kand_mask8(static_cast<__mmask8>(hi.raw),
+                                  static_cast<__mmask8>(3)),
+                      2),
       _kand_mask8(static_cast<__mmask8>(lo.raw), static_cast<__mmask8>(3)));
 #else
   const auto combined_mask =
-      (static_cast<unsigned>(hi.raw) << 2) | (lo.raw & 3);
+      (static_cast<unsigned>(hi.raw & 3) << 2) | (lo.raw & 3);
 #endif
 
   return MFromD<D>{static_cast<decltype(MFromD<D>().raw)>(combined_mask)};
-- 
2.43.0


From be69a86b6d93d3eff8fb3afbf0aabec0db43e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 20/45] fix: AVX3 PromoteMaskTo of partial vectors copied
 unused mask bits

---
 hwy/ops/x86_128-inl.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 25be34e..048e2df 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -1022,9 +1022,20 @@ template <class DTo, class DFrom,
           HWY_IF_T_SIZE_GT_D(DTo, sizeof(TFromD<DFrom>)),
           class DFrom_2 = Rebind<TFromD<DFrom>, DTo>,
           hwy::EnableIf<IsSame<MFromD<DFrom>, MFromD<DFrom_2>>()>* = nullptr>
-HWY_API MFromD<DTo> PromoteMaskTo(DTo /*d_to*/, DFrom /*d_from*/,
+HWY_API MFromD<DTo> PromoteMaskTo(DTo /*d_to*/, DFrom d_from,
                                   MFromD<DFrom> m) {
-  return MFromD<DTo>{static_cast<decltype(MFromD<DTo>().raw)>(m.raw)};
+  using RawTo = decltype(MFromD<DTo>().raw);
+  constexpr size_t kN = MaxLanes(d_from);
+
+  MFromD<DTo> result_mask{static_cast<RawTo>(m.raw)};
+
+  // Bits beyond a partial DFrom are undefined, but DTo might not be partial.
+  if (d_from.MaxBytes() < 16 && kN < sizeof(RawTo) * 8) {
+    result_mask =
+        And(result_mask, MFromD<DTo>{static_cast<RawTo>((1ULL << kN) - 1)});
+  }
+
+  return result_mask;
 }
 
 // ------------------------------ DemoteMaskTo (MFromD)
-- 
2.43.0


From fbacb76ab61cf03b1bec2953eeb2db7ba3860d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 21/45] fix: emulated CLMulLower/CLMulUpper lost carries

Multiplying every fourth bit of two 64-bit operands sums up to 16 one-bits in
a 4-bit hole, which carried into the next one: for example, the product of two
all-ones operands was wrong. Multiply the lowest four bits of one operand
separately, so that at most 15 bits are summed.
---
 hwy/ops/generic_ops-inl.h | 40 +++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index a013486..a63b05e 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -4301,10 +4301,16 @@ HWY_API V CLMulLower(V a, V b) {
   const auto k2 = Set(d, 0x2222222222222222ULL);
   const auto k4 = Set(d, 0x4444444444444444ULL);
   const auto k8 = Set(d, 0x8888888888888888ULL);
-  const auto a0 = And(a, k1);
-  const auto a1 = And(a, k2);
-  const auto a2 = And(a, k4);
-  const auto a3 = And(a, k8);
+  // Summing 16 bits would carry out of the 4-bit holes, hence handle the lowest
+  // bits of `a` separately: multiplying by a power of two does not carry.
+  const auto low1 = Set(d, 1);
+  const auto low2 = Set(d, 2);
+  const auto low4 = Set(d, 4);
+  const auto low8 = Set(d, 8);
+  const auto a0 = And(a, AndNot(low1, k1));
+  const auto a1 = And(a, AndNot(low2, k2));
+  const auto a2 = And(a, AndNot(low4, k4));
+  const auto a3 = And(a, AndNot(low8, k8));
   const auto b0 = And(b, k1);
   const auto b1 = And(b, k2);
   const auto b2 = And(b, k4);
@@ -4318,7 +4324,11 @@ HWY_API V CLMulLower(V a, V b) {
   m1 = Xor(m1, Xor(MulEven(a2, b3), MulEven(a3, b2)));
   m2 = Xor(m2, Xor(MulEven(a2, b0), MulEven(a3, b3)));
   m3 = Xor(m3, Xor(MulEven(a2, b1), MulEven(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  const auto low =
+      Xor(Xor(MulEven(And(a, low1), b), MulEven(And(a, low2), b)),
+          Xor(MulEven(And(a, low4), b), MulEven(And(a, low8), b)));
+  return Xor(Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8))),
+             low);
 }
 
 template <class V>
@@ -4329,10 +4339,16 @@ HWY_API V CLMulUpper(V a, V b) {
   const auto k2 = Set(d, 0x2222222222222222ULL);
   const auto k4 = Set(d, 0x4444444444444444ULL);
   const auto k8 = Set(d, 0x8888888888888888ULL);
-  const auto a0 = And(a, k1);
-  const auto a1 = And(a, k2);
-  const auto a2 = And(a, k4);
-  const auto a3 = And(a, k8);
+  // Summing 16 bits would carry out of the 4-bit holes, hence handle the lowest
+  // bits of `a` separately: multiplying by a power of two does not carry.
+  const auto low1 = Set(d, 1);
+  const auto low2 = Set(d, 2);
+  const auto low4 = Set(d, 4);
+  const auto low8 = Set(d, 8);
+  const auto a0 = And(a, AndNot(low1, k1));
+  const auto a1 = And(a, AndNot(low2, k2));
+  const auto a2 = And(a, AndNot(low4, k4));
+  const auto a3 = And(a, AndNot(low8, k8));
   const auto b0 = And(b, k1);
   const auto b1 = And(b, k2);
   const auto b2 = And(b, k4);
@@ -4346,7 +4362,11 @@ HWY_API V CLMulUpper(V a, V b) {
   m1 = Xor(m1, Xor(MulOdd(a2, b3), MulOdd(a3, b2)));
   m2 = Xor(m2, Xor(MulOdd(a2, b0), MulOdd(a3, b3)));
   m3 = Xor(m3, Xor(MulOdd(a2, b1), MulOdd(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  const auto low =
+      Xor(Xor(MulOdd(And(a, low1), b), MulOdd(And(a, low2), b)),
+          Xor(MulOdd(And(a, low4), b), MulOdd(And(a, low8), b)));
+  return Xor(Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8))),
+             low);
 }
 
 #endif  // HWY_NATIVE_AES
-- 
2.43.0


From 320bea7fc1a9e2493c61426f3a1520722d1a33cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 22/45] fix: robust_statistics: averages and deviations
 overflowed

Median, Mode and MedianAbsoluteDeviation of unsigned values whose sum or
difference exceeds the range of T (or int64_t) were wrong.
---
 hwy/robust_statistics.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hwy/robust_statistics.h b/hwy/robust_statistics.h
index d80a214..2e7ac8f 100644
--- a/hwy/robust_statistics.h
+++ b/hwy/robust_statistics.h
@@ -26,6 +26,17 @@
 namespace hwy {
 namespace robust_statistics {
 
+namespace detail {
+
+// Returns the rounded-up average of two values, without overflow.
+template <typename T>
+T Average(const T min, const T max) {
+  const T range = static_cast<T>(max - min);
+  return static_cast<T>(min + (range - range / 2));
+}
+
+}  // namespace detail
+
 // Sorts integral values in ascending order (e.g. for Mode). About 3x faster
 // than std::sort for input distributions with very few unique values.
 template <class T>
@@ -97,8 +108,7 @@ T ModeOfSorted(const T* const HWY_RESTRICT sorted, const size_t num_values) {
     return x;
   }
   HWY_ASSERT(half_count == 1);
-  const T average = (x + sorted[idx_begin + 1] + 1) / 2;
-  return average;
+  return detail::Average(x, sorted[idx_begin + 1]);
 }
 
 // Returns the mode. Side effect: sorts "values".
@@ -124,7 +134,7 @@ T Median(T* values, const size_t num_values) {
     return values[half];
   }
   // Even count: return average of middle two.
-  return (values[half] + values[half - 1] + 1) / 2;
+  return detail::Average(values[half - 1], values[half]);
 }
 
 // Returns a robust measure of variability.
@@ -135,9 +145,9 @@ T MedianAbsoluteDeviation(const T* values, const size_t num_values,
   std::vector<T> abs_deviations;
   abs_deviations.reserve(num_values);
   for (size_t i = 0; i < num_values; ++i) {
-    const int64_t abs = ScalarAbs(static_cast<int64_t>(values[i]) -
-                                  static_cast<int64_t>(median));
-    abs_deviations.push_back(static_cast<T>(abs));
+    const T abs = static_cast<T>(values[i] < median ? median - values[i]
+                                                    : values[i] - median);
+    abs_deviations.push_back(abs);
   }
   return Median(abs_deviations.data(), num_values);
 }
-- 
2.43.0


From a3ccaa757a7695c6b96480ddbc6e09748e042f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 23/45] fix: Stats: counts beyond 2^31 overflowed

---
 hwy/stats.cc | 14 +++++++++-----
 hwy/stats.h  | 21 +++++++++++----------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/hwy/stats.cc b/hwy/stats.cc
index 4c53124..f2f7fa0 100644
--- a/hwy/stats.cc
+++ b/hwy/stats.cc
@@ -33,11 +33,15 @@ void Stats::Assimilate(const Stats& other) {
 
   sum_log_ += other.sum_log_;
 
-  const double product_n = n_ * other.n_;
-  const double n2 = n_ * n_;
-  const double other_n2 = other.n_ * other.n_;
-  const int64_t total_n2 = total_n * total_n;
-  const double total_n3 = static_cast<double>(total_n2) * total_n;
+  // Convert before multiplying, which could overflow int64_t.
+  const double n = static_cast<double>(n_);
+  const double other_n = static_cast<double>(other.n_);
+  const double product_n = n * other_n;
+  const double n2 = n * n;
+  const double other_n2 = other_n * other_n;
+  const double total_n2 =
+      static_cast<double>(total_n) * static_cast<double>(total_n);
+  const double total_n3 = total_n2 * static_cast<double>(total_n);
   // Precompute reciprocal for speed - used at least twice.
   const double inv_total_n = 1.0 / total_n;
   const double inv_total_n2 = 1.0 / total_n2;
diff --git a/hwy/stats.h b/hwy/stats.h
index a313e02..4af4728 100644
--- a/hwy/stats.h
+++ b/hwy/stats.h
@@ -84,12 +84,13 @@ class Stats {
 
     // Online moments. Reference: https://goo.gl/9ha694
     const double d = x - m1_;
-    const double d_div_n = d / static_cast<double>(n_);
-    const double d2n1_div_n = d * (static_cast<double>(n_) - 1) * d_div_n;
-    const int64_t n_poly = n_ * n_ - 3 * n_ + 3;
+    const double n = static_cast<double>(n_);
+    const double d_div_n = d / n;
+    const double d2n1_div_n = d * (n - 1) * d_div_n;
+    const double n_poly = n * n - 3 * n + 3;
     m1_ += d_div_n;
-    m4_ += d_div_n * (d_div_n * (d2n1_div_n * static_cast<double>(n_poly) + 6.0 * m2_) - 4.0 * m3_);
-    m3_ += d_div_n * (d2n1_div_n * (static_cast<double>(n_) - 2) - 3.0 * m2_);
+    m4_ += d_div_n * (d_div_n * (d2n1_div_n * n_poly + 6.0 * m2_) - 4.0 * m3_);
+    m3_ += d_div_n * (d2n1_div_n * (n - 2) - 3.0 * m2_);
     m2_ += d2n1_div_n;
   }
 
@@ -107,13 +108,13 @@ class Stats {
   double Mean() const { return m1_; }
   // Same as Mu2. Assumes n_ is large.
   double SampleVariance() const {
-    return n_ == 0 ? 0.0 : m2_ / static_cast<int>(n_);
+    return n_ == 0 ? 0.0 : m2_ / static_cast<double>(n_);
   }
   // Unbiased estimator for population variance even for smaller n_.
   double Variance() const {
     if (n_ == 0) return 0.0;
     if (n_ == 1) return m2_;
-    return m2_ / static_cast<int>(n_ - 1);
+    return m2_ / static_cast<double>(n_ - 1);
   }
   double StandardDeviation() const { return std::sqrt(Variance()); }
   // Near zero for normal distributions; if positive on a unimodal distribution,
@@ -146,9 +147,9 @@ class Stats {
   // Central moments, useful for "method of moments"-based parameter estimation
   // of a mixture of two Gaussians. Assumes Count() != 0.
   double Mu1() const { return m1_; }
-  double Mu2() const { return m2_ / static_cast<int>(n_); }
-  double Mu3() const { return m3_ / static_cast<int>(n_); }
-  double Mu4() const { return m4_ / static_cast<int>(n_); }
+  double Mu2() const { return m2_ / static_cast<double>(n_); }
+  double Mu3() const { return m3_ / static_cast<double>(n_); }
+  double Mu4() const { return m4_ / static_cast<double>(n_); }
 
   // Which statistics to EXCLUDE in ToString
   enum {
-- 
2.43.0


From 6731625b07ba387afcd60d2c1dcf5aaab1ccbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 24/45] fix: x86 detection ignored maximum CPUID leaves and the
 OS state of AVX10.2

---
 hwy/targets.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index e976da7..bd79594 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -200,9 +200,12 @@ static uint64_t FlagsFromCPUID() {
   flags |= IsBitSet(abcd[2], 28) ? Bit(FeatureIndex::kAVX) : 0;
   flags |= IsBitSet(abcd[2], 29) ? Bit(FeatureIndex::kF16C) : 0;
 
-  // Extended feature flags
-  Cpuid(0x80000001U, 0, abcd);
-  flags |= IsBitSet(abcd[2], 5) ? Bit(FeatureIndex::kLZCNT) : 0;
+  // Extended feature flags. Leaves beyond the maximum return unrelated data.
+  Cpuid(0x80000000U, 0, abcd);
+  if (abcd[0] >= 0x80000001U) {
+    Cpuid(0x80000001U, 0, abcd);
+    flags |= IsBitSet(abcd[2], 5) ? Bit(FeatureIndex::kLZCNT) : 0;
+  }
 
   // Extended features
   if (max_level >= 7) {
@@ -326,7 +329,7 @@ static int64_t DetectTargets() {
 
   uint32_t abcd[4];
 
-  if ((flags & kGroupAVX10) == kGroupAVX10) {
+  if ((flags & kGroupAVX10) == kGroupAVX10 && MaxLevel() >= 0x24) {
     Cpuid(0x24, 0, abcd);
 
     // AVX10 version is in lower 8 bits of abcd[1]
@@ -405,7 +408,8 @@ static int64_t DetectTargets() {
 #endif
 
     const uint32_t xcr0 = ReadXCR0();
-    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
+    // Includes AVX10.2, whose EVEX encodings also require all of this state.
+    constexpr int64_t min_avx3 = HWY_AVX3 | (HWY_AVX3 - 1);
     // XMM/YMM
     if (!IsBitSet(xcr0, 1) || !IsBitSet(xcr0, 2)) {
       // Clear the AVX2/AVX3 bits if XMM/YMM XSAVE is not enabled
-- 
2.43.0


From dcb27a94c18561e1e32a5a73cb735b2fae9fab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 25/45] fix: SupportedTargets made disabled targets available
 to dispatch

---
 hwy/targets.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index bd79594..a85fc6f 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -789,21 +789,26 @@ HWY_DLLEXPORT void SetSupportedTargetsForTest(int64_t targets) {
 
 HWY_DLLEXPORT int64_t SupportedTargets() {
   int64_t targets = supported_targets_for_test_;
-  if (HWY_LIKELY(targets == 0)) {
+  const bool is_mock = targets != 0;
+  if (HWY_LIKELY(!is_mock)) {
     // Mock not active. Re-detect instead of caching just in case we're on a
     // heterogeneous ISA (also requires some app support to pin threads). This
     // is only reached on the first HWY_DYNAMIC_DISPATCH or after each call to
     // DisableTargets or SetSupportedTargetsForTest.
     targets = DetectTargets();
+  }
+
+  targets &= supported_mask_;
+  if (targets == 0) targets = HWY_STATIC_TARGET;
 
+  if (HWY_LIKELY(!is_mock)) {
     // VectorBytes invokes HWY_DYNAMIC_DISPATCH. To prevent infinite recursion,
-    // first set up ChosenTarget. No need to Update() again afterwards with the
-    // final targets - that will be done by a caller of this function.
+    // first set up ChosenTarget. This must not include disabled targets because
+    // other threads, or callers of this function, might already dispatch.
     GetChosenTarget().Update(targets);
   }
 
-  targets &= supported_mask_;
-  return targets == 0 ? HWY_STATIC_TARGET : targets;
+  return targets;
 }
 
 HWY_DLLEXPORT ChosenTarget& GetChosenTarget() {
-- 
2.43.0


From f6bfacf012a456cc758e96b9bdebcdfc16ed3285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:09 +0000
Subject: [PATCH 26/45] fix: topology: sysfs files of 200 or more bytes
 overflowed the buffer

---
 hwy/contrib/thread_pool/topology.cc | 55 ++++++++++++++---------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e01bb7c..265d556 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -395,26 +395,25 @@ class File {
     }
   }
 
-  // Returns number of bytes read or 0 on failure.
-  size_t Read(char* buf200) const {
-    if (fd_ < 0) return 0;
-    size_t pos = 0;
+  // Returns false on failure, otherwise sets `contents` to the entire file,
+  // whose length is not bounded (for example, a `cpulist` without ranges).
+  bool Read(std::string& contents) const {
+    contents.clear();
+    if (fd_ < 0) return false;
+    char buf200[200];
     for (;;) {
       // read instead of `pread`, which might not work for sysfs.
-      const auto bytes_read = read(fd_, buf200 + pos, 200 - pos);
-      if (bytes_read == 0) {  // EOF: done
-        buf200[pos++] = '\0';
-        return pos;
-      }
+      const auto bytes_read = read(fd_, buf200, sizeof(buf200));
+      if (bytes_read == 0) return true;  // EOF: done
       if (bytes_read == -1) {
         if (errno == EINTR) continue;  // signal: retry
         if (HWY_IS_DEBUG_BUILD) {
           HWY_WARN("Unexpected error reading file: %d\n", errno);
         }
-        return 0;
+        contents.clear();
+        return false;
       }
-      pos += static_cast<size_t>(bytes_read);
-      HWY_ASSERT(pos <= 200);
+      contents.append(buf200, static_cast<size_t>(bytes_read));
     }
   }
 
@@ -422,15 +421,15 @@ class File {
   int fd_;
 };
 
-// Returns bytes read, or 0 on failure.
-size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
+// Returns false on failure, otherwise sets `contents`.
+bool ReadSysfs(const char* format, size_t lp, std::string& contents) {
   char path[200];
   const int bytes_written = snprintf(path, sizeof(path), format, lp);
   HWY_ASSERT(0 < bytes_written &&
              bytes_written < static_cast<int>(sizeof(path) - 1));
 
   const File file(path);
-  return file.Read(buf200);
+  return file.Read(contents);
 }
 
 // Interprets [str + pos, str + end) as base-10 ASCII. Stops when any non-digit
@@ -472,10 +471,10 @@ bool ParseNumberWithOptionalSuffix(const char* str, size_t len, size_t* out) {
 }
 
 bool ReadNumberWithOptionalSuffix(const char* format, size_t lp, size_t* out) {
-  char buf200[200];
-  const size_t pos = ReadSysfs(format, lp, buf200);
-  if (pos == 0) return false;
-  return ParseNumberWithOptionalSuffix(buf200, pos, out);
+  std::string contents;
+  if (!ReadSysfs(format, lp, contents)) return false;
+  return ParseNumberWithOptionalSuffix(contents.c_str(), contents.length(),
+                                       out);
 }
 
 const char* kPackage =
@@ -634,11 +633,10 @@ void SetNodes(std::vector<Topology::LP>& lps) {
   // For each NUMA node found via sysfs:
   for (size_t node = 0;; node++) {
     // Read its cpulist so we can scatter `node` to all its `lps`.
-    char buf200[200];
-    const size_t bytes_read = ReadSysfs(kNode, node, buf200);
-    if (bytes_read == 0) break;
+    std::string cpulist;
+    if (!ReadSysfs(kNode, node, cpulist)) break;
     const std::vector<size_t> list =
-        ExpandList(buf200, bytes_read, lps.size() - 1);
+        ExpandList(cpulist.c_str(), cpulist.length(), lps.size() - 1);
     for (size_t lp : list) {
       lps[lp].node = static_cast<uint8_t>(node);
     }
@@ -897,13 +895,14 @@ using Caches = std::array<Cache, 4>;
 std::string ReadString(const char* name, size_t index) {
   // First CPU is usually a P core.
   const std::string path("/sys/devices/system/cpu/cpu0/cache/index%zu/");
-  char buf200[200];
-  size_t end = ReadSysfs((path + name).c_str(), index, buf200);
+  std::string contents;
+  (void)ReadSysfs((path + name).c_str(), index, contents);
   // Remove trailing newline/null to simplify string comparison.
-  for (; end != 0; --end) {
-    if (buf200[end - 1] != '\0' && buf200[end - 1] != '\n') break;
+  while (!contents.empty() &&
+         (contents.back() == '\0' || contents.back() == '\n')) {
+    contents.pop_back();
   }
-  return std::string(buf200, buf200 + end);
+  return contents;
 }
 
 template <typename T>
-- 
2.43.0


From fbca51203b53c8fdfbf93a92097cae6a93fd40c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 27/45] fix: topology: closed descriptors twice after EINTR and
 leaked descriptor 0

---
 hwy/contrib/thread_pool/topology.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 265d556..8bfb0b8 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -371,7 +371,7 @@ class File {
   explicit File(const char* path) {
     for (;;) {
       fd_ = open(path, O_RDONLY);
-      if (fd_ > 0) return;           // success
+      if (fd_ >= 0) return;          // success
       if (errno == EINTR) continue;  // signal: retry
       if (errno == ENOENT) return;   // not found, give up
       if (HWY_IS_DEBUG_BUILD) {
@@ -382,15 +382,13 @@ class File {
   }
 
   ~File() {
-    if (fd_ > 0) {
-      for (;;) {
-        const int ret = close(fd_);
-        if (ret == 0) break;           // success
-        if (errno == EINTR) continue;  // signal: retry
+    if (fd_ >= 0) {
+      // Do not retry after EINTR: Linux has already released `fd_`, and another
+      // thread may have opened a file with the same number.
+      if (close(fd_) != 0 && errno != EINTR) {
         if (HWY_IS_DEBUG_BUILD) {
           HWY_WARN("Unexpected error closing file: %d\n", errno);
         }
-        return;  // unknown error, ignore
       }
     }
   }
-- 
2.43.0


From 3e7612d4c2ba5c187780db232f73a910982e5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 28/45] fix: topology: sysfs ids with ten or more digits
 aborted

---
 hwy/contrib/thread_pool/topology.cc | 33 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 8bfb0b8..6504ec3 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -431,22 +431,22 @@ bool ReadSysfs(const char* format, size_t lp, std::string& contents) {
 }
 
 // Interprets [str + pos, str + end) as base-10 ASCII. Stops when any non-digit
-// is found, or at end. Returns false if no digits found.
+// is found, or at end. Returns false if no digits found, or the number does not
+// fit in `size_t`.
 bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
   HWY_ASSERT(pos <= end);
-  // 9 digits cannot overflow even 32-bit size_t.
-  const size_t stop = pos + 9;
+  const size_t begin = pos;
+  size_t value = 0;
   *out = 0;
-  for (; pos < HWY_MIN(end, stop); ++pos) {
+  for (; pos < end; ++pos) {
     const int c = str[pos];
     if (c < '0' || c > '9') break;
-    *out *= 10;
-    *out += static_cast<size_t>(c - '0');
-  }
-  if (pos == 0) {  // No digits found
-    *out = 0;
-    return false;
+    const size_t digit = static_cast<size_t>(c - '0');
+    if (value > (hwy::LimitsMax<size_t>() - digit) / 10) return false;
+    value = value * 10 + digit;
   }
+  if (pos == begin) return false;  // No digits found
+  *out = value;
   return true;
 }
 
@@ -454,17 +454,20 @@ bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
 bool ParseNumberWithOptionalSuffix(const char* str, size_t len, size_t* out) {
   size_t pos = 0;
   if (!ParseDigits(str, len, pos, out)) return false;
+  size_t shift = 0;
   if (str[pos] == 'K') {
-    *out <<= 10;
+    shift = 10;
     ++pos;
-  }
-  if (str[pos] == 'M') {
-    *out <<= 20;
+  } else if (str[pos] == 'M') {
+    shift = 20;
     ++pos;
   }
   if (str[pos] != '\0' && str[pos] != '\n') {
-    HWY_ABORT("Expected [suffix] terminator at %zu %s\n", pos, str);
+    HWY_WARN("Expected [suffix] terminator at %zu %s\n", pos, str);
+    return false;
   }
+  if (*out > (hwy::LimitsMax<size_t>() >> shift)) return false;
+  *out <<= shift;
   return true;
 }
 
-- 
2.43.0


From 731c70221b3b92b85fd81fadc0aa4ce276ac51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 29/45] fix: topology: aborted if a CPU list is empty or
 includes unknown CPUs

---
 hwy/contrib/thread_pool/topology.cc | 76 ++++++++++-------------------
 1 file changed, 25 insertions(+), 51 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 6504ec3..fe7ea83 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -564,67 +564,41 @@ std::vector<PackageSizes> DetectPackages(std::vector<Topology::LP>& lps) {
   return package_sizes;
 }
 
+// Returns all LP <= `max_lp` in a comma-separated list of LP or `first-last`
+// ranges. There can be none: NUMA nodes may only consist of memory, and there
+// may be LPs beyond `max_lp` because `TotalLogicalProcessors` is clamped and can
+// under-report, for example in containers or on RISC-V. Also returns an empty
+// vector if `list` is malformed.
 std::vector<size_t> ExpandList(const char* list, size_t list_end,
                                size_t max_lp) {
   std::vector<size_t> expanded;
-  constexpr size_t kNotFound = ~size_t{0};
   size_t pos = 0;
-
-  // Returns first `found_pos >= pos` where `list[found_pos] == c`, or
-  // `kNotFound`.
-  const auto find = [list, list_end, &pos](char c) -> size_t {
-    const char* found_ptr = strchr(list + pos, c);
-    if (found_ptr == nullptr) return kNotFound;
-    const size_t found_pos = static_cast<size_t>(found_ptr - list);
-    HWY_ASSERT(found_pos < list_end && list[found_pos] == c);
-    return found_pos;
-  };
-
-  // Reads LP number and advances `pos`. `end` is for verifying we did not
-  // read past a known terminator, or the end of string.
-  const auto parse_lp = [list, list_end, &pos, max_lp](size_t end) -> size_t {
-    end = HWY_MIN(end, list_end);
-    size_t lp;
-    HWY_ASSERT(ParseDigits(list, end, pos, &lp));
-    HWY_IF_CONSTEXPR(HWY_ARCH_RISCV) {
-      // On RISC-V, both TotalLogicalProcessors and GetThreadAffinity may
-      // under-report the count, hence clamp.
-      lp = HWY_MIN(lp, max_lp);
-    }
-    HWY_ASSERT(lp <= max_lp);
-    HWY_ASSERT(pos <= end);
-    return lp;
+  const auto at_end = [list, list_end, &pos]() -> bool {
+    return pos == list_end || list[pos] == '\0' || list[pos] == '\n';
   };
+  if (at_end()) return expanded;
 
-  // Parse all [first-]last separated by commas.
+  // Parse all first[-last] separated by commas.
   for (;;) {
-    // Single number or first of range: ends with dash, comma, or end.
-    const size_t lp_range_first = parse_lp(HWY_MIN(find('-'), find(',')));
-
-    if (list[pos] == '-') {  // range
-      ++pos;                 // skip dash
-      // Last of range ends with comma or end.
-      const size_t lp_range_last = parse_lp(find(','));
-
-      expanded.reserve(expanded.size() + lp_range_last - lp_range_first + 1);
-      for (size_t lp = lp_range_first; lp <= lp_range_last; ++lp) {
-        expanded.push_back(lp);
-      }
-    } else {  // single number
-      expanded.push_back(lp_range_first);
+    size_t first, last;
+    bool ok = ParseDigits(list, list_end, pos, &first);
+    last = first;
+    if (ok && pos != list_end && list[pos] == '-') {  // range
+      ++pos;                                          // skip dash
+      ok = ParseDigits(list, list_end, pos, &last) && first <= last;
     }
-
-    // Done if reached end of string.
-    if (pos == list_end || list[pos] == '\0' || list[pos] == '\n') {
-      break;
+    if (!ok || (!at_end() && list[pos] != ',')) {
+      HWY_WARN("Unexpected character at %zu in %s\n", pos, list);
+      return std::vector<size_t>();
     }
-    // Comma means at least one more term is coming.
-    if (list[pos] == ',') {
-      ++pos;
-      continue;
+
+    for (size_t lp = first; lp <= HWY_MIN(last, max_lp); ++lp) {
+      expanded.push_back(lp);
     }
-    HWY_ABORT("Unexpected character at %zu in %s\n", pos, list);
-  }  // for pos
+
+    if (at_end()) break;
+    ++pos;  // Skip comma: at least one more term is coming.
+  }
 
   return expanded;
 }
-- 
2.43.0


From ffc1304e49d9594b161c5d5f259abc7119d19ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 30/45] fix: topology: ignored NUMA nodes after a gap in their
 numbering

---
 hwy/contrib/thread_pool/topology.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index fe7ea83..56682d7 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -605,11 +605,12 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
 
 // Sets LP.node for all `lps`.
 void SetNodes(std::vector<Topology::LP>& lps) {
-  // For each NUMA node found via sysfs:
-  for (size_t node = 0;; node++) {
+  // For each NUMA node found via sysfs. Node numbers need not be contiguous,
+  // hence check all that fit in `Topology::LP`.
+  for (size_t node = 0; node <= hwy::LimitsMax<uint8_t>(); node++) {
     // Read its cpulist so we can scatter `node` to all its `lps`.
     std::string cpulist;
-    if (!ReadSysfs(kNode, node, cpulist)) break;
+    if (!ReadSysfs(kNode, node, cpulist)) continue;
     const std::vector<size_t> list =
         ExpandList(cpulist.c_str(), cpulist.length(), lps.size() - 1);
     for (size_t lp : list) {
-- 
2.43.0


From f27a21674c9875350a8a253cf3a167d1c7e16718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 31/45] fix: topology: aborted if there are many packages or LP
 per core

---
 hwy/contrib/thread_pool/topology.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 56682d7..079458a 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -501,7 +501,7 @@ class Remapper {
     num_ += ib.second;                      // increment if inserted
     const size_t index = ib.first->second;  // new or existing
     HWY_ASSERT(index < num_);
-    HWY_ASSERT(index < hwy::LimitsMax<T>());
+    if (index > hwy::LimitsMax<T>()) return false;
     *out_index = static_cast<T>(index);
     return true;
   }
@@ -550,8 +550,12 @@ std::vector<PackageSizes> DetectPackages(std::vector<Topology::LP>& lps) {
 
     // SMT ID is how many LP we have already seen assigned to the same core.
     HWY_ASSERT(lps[lp].core < kMaxLogicalProcessors);
-    lps[lp].smt = pp.smt_per_core[lps[lp].core]++;
-    HWY_ASSERT(lps[lp].smt < 16);
+    uint8_t& num_smt = pp.smt_per_core[lps[lp].core];
+    if (num_smt == hwy::LimitsMax<uint8_t>()) {
+      HWY_WARN("More than %d LP per core\n", num_smt);
+      return empty;
+    }
+    lps[lp].smt = num_smt++;
   }
 
   std::vector<PackageSizes> package_sizes(per_package.size());
-- 
2.43.0


From 8fb7f17d5a88a075f6bfc111859442c6b8f67450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 32/45] fix: DataCaches aborted on some cache geometries

---
 hwy/contrib/thread_pool/topology.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 079458a..8fbd930 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -894,6 +894,7 @@ bool WriteSysfs(const char* name, size_t index, T* out) {
   size_t val;
   if (!ParseDigits(str.c_str(), str.length(), pos, &val)) return false;
   HWY_ASSERT(pos <= str.length());
+  if (val > hwy::LimitsMax<T>()) return false;
   *out = static_cast<T>(val);
   return true;
 }
@@ -938,7 +939,14 @@ bool InitCachesSysfs(Caches& caches) {
     // Compute line size *before* adjusting the size for sharing. Note that
     // `coherency_line_size` exists, but we are not sure that is the line size.
     const size_t bytes = static_cast<size_t>(c.size_kib) * 1024;
-    const size_t lines = c.associativity * c.sets;
+    const size_t lines = static_cast<size_t>(c.associativity) * c.sets;
+    if (HWY_UNLIKELY(lines == 0 || bytes % lines != 0 || bytes == 0 ||
+                     bytes / lines > hwy::LimitsMax<uint16_t>())) {
+      HWY_WARN("skipping L%u with inconsistent size %u KiB, %u ways, %u sets\n",
+               level, c.size_kib, c.associativity, c.sets);
+      c = Cache();
+      continue;
+    }
     c.bytes_per_line = static_cast<uint16_t>(DivByFactor(bytes, lines));
 
     // Divide by number of *cores* sharing the cache.
@@ -1168,8 +1176,12 @@ HWY_MAYBE_UNUSED void ComputeSets(Cache& c) {
   if (c.sets == 0) {
     c.sets = static_cast<uint32_t>(sets);
   } else {
+    // `sets` can be less because `size_kib` may have been rounded down by just
+    // under 1 KiB.
+    const size_t bytes_per_set =
+        static_cast<size_t>(c.bytes_per_line) * c.associativity;
     const size_t diff = c.sets - sets;
-    if (diff > 1) {
+    if (diff > DivCeil(size_t{1024}, bytes_per_set)) {
       HWY_ABORT("Inconsistent cache sets %u != %zu\n", c.sets, sets);
     }
   }
-- 
2.43.0


From 3673d58f3b1113d6aa7cb41087a13f28cbe7b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 33/45] fix: GetThreadAffinity on Linux did not clear its
 output

---
 hwy/contrib/thread_pool/topology.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 8fbd930..35daf0f 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -326,6 +326,7 @@ HWY_CONTRIB_DLLEXPORT bool GetThreadAffinity(LogicalProcessorSet& lps) {
   CPU_ZERO(&set);
   const int err = GetAffinity(&set);
   if (err != 0) return false;
+  lps = LogicalProcessorSet();  // clear all
   for (size_t lp = 0; lp < kMaxLogicalProcessors; ++lp) {
     if (IsSet(lp, &set)) lps.Set(lp);
   }
-- 
2.43.0


From dfb32c1ea2da8e7a9aa1fac085abe4cc1445edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 34/45] fix: Pack16<11>::Unpack mixed other vectors' top bits
 into the last one

The last vector's upper three bits are stored in the MSB of three packed
vectors, but unpacking them used a three-bit mask, so its bits were also set by
the top bits of vectors 13 and 14.
---
 hwy/contrib/bit_pack/bit_pack-inl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 09d37ac..0b1ee37 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -1898,10 +1898,11 @@ struct Pack16<11> {
     const VU16 rawD = OrAnd(downD, ShiftRight<4>(packed9), hi3);
     const VU16 rawE = OrAnd(downE, ShiftRight<4>(packedA), hi3);
 
-    // Shift MSB into the top 3-of-11 and mask.
-    const VU16 rawF = Or(downF, Xor3(And(ShiftRight<7>(packed8), hi3),
-                                     And(ShiftRight<6>(packed9), hi3),
-                                     And(ShiftRight<5>(packedA), hi3)));
+    // Shift MSB into the top 3-of-11; mask off the other bits of each remnant.
+    const VU16 rawF =
+        Or(downF, Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                       And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                       And(ShiftRight<5>(packedA), Set(d, 0x400u))));
 
     StoreU(raw0, d, raw + 0 * N);
     StoreU(raw1, d, raw + 1 * N);
-- 
2.43.0


From 5f16c9bfbfe2b09c31c0fc0758538756435e7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 35/45] fix: Pack16<13> lost and mixed the upper bits of
 vectors

Pack's mask for the last vector's upper bits covered three bits instead of the
MSB; Unpack read the upper bits of vectors 8, 9, 13 and 14 from the wrong packed
vectors and used a five-bit mask for each MSB of the last one.
---
 hwy/contrib/bit_pack/bit_pack-inl.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 0b1ee37..59f2aa4 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -2121,7 +2121,7 @@ struct Pack16<13> {
     packedC = OrAnd(packedC, ShiftLeft<2>(rawE), next);
 
     // Scatter upper 5 bits of rawF into the upper bits.
-    next = ShiftLeft<3>(next);  // = 0x8000u
+    next = ShiftLeft<5>(next);  // = 0x8000u
     packed8 = OrAnd(packed8, ShiftLeft<7>(rawF), next);
     packed9 = OrAnd(packed9, ShiftLeft<6>(rawF), next);
     packedA = OrAnd(packedA, ShiftLeft<5>(rawF), next);
@@ -2185,21 +2185,21 @@ struct Pack16<13> {
     const VU16 raw5 = OrAnd(down5, ShiftLeft<3>(packed8), hi5);
     const VU16 raw6 = OrAnd(down6, ShiftLeft<3>(packed9), hi5);
     const VU16 raw7 = OrAnd(down7, ShiftLeft<3>(packedA), hi5);
-    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packed9), hi5);
-    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedA), hi5);
+    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packedB), hi5);
+    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedC), hi5);
 
     const VU16 rawA = OrAnd(downA, ShiftRight<2>(packed8), hi5);
     const VU16 rawB = OrAnd(downB, ShiftRight<2>(packed9), hi5);
     const VU16 rawC = OrAnd(downC, ShiftRight<2>(packedA), hi5);
-    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packed9), hi5);
-    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedA), hi5);
-
-    // Shift MSB into the top 5-of-11 and mask.
-    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), hi5),  //
-                         And(ShiftRight<6>(packed9), hi5),
-                         And(ShiftRight<5>(packedA), hi5));
-    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), hi5),
-                         And(ShiftRight<3>(packedC), hi5), downF);
+    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packedB), hi5);
+    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedC), hi5);
+
+    // Shift MSB into the top 5-of-13; mask off the other bits of each remnant.
+    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                         And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                         And(ShiftRight<5>(packedA), Set(d, 0x400u)));
+    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), Set(d, 0x800u)),
+                         And(ShiftRight<3>(packedC), Set(d, 0x1000u)), downF);
     const VU16 rawF = Or(p0, p1);
 
     StoreU(raw0, d, raw + 0 * N);
-- 
2.43.0


From 7c33183141f44c5a4a1e483c6221ee1560e576b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:52 +0000
Subject: [PATCH 36/45] fix: heap sort and partial sort access memory out of
 bounds for no keys

Where VQSort is not available (HWY_SCALAR), sorting zero keys underflowed the
loop bounds, and a partial sort of all keys selected the key after the last.
---
 hwy/contrib/sort/vqsort-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 94cedd3..bc1df2e 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -161,7 +161,7 @@ template <class Traits, typename T>
 void HeapSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes) {
   constexpr size_t N1 = st.LanesPerKey();
   HWY_DASSERT(num_lanes % N1 == 0);
-  if (num_lanes == N1) return;
+  if (num_lanes <= N1) return;  // Zero or one key: already sorted.
 
   // Build heap.
   for (size_t i = ((num_lanes - N1) / N1 / 2) * N1; i != (~N1 + 1); i -= N1) {
@@ -232,7 +232,8 @@ void HeapSelect(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
 template <class Traits, typename T>
 void HeapPartialSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
                      const size_t k_lanes) {
-  HeapSelect(st, lanes, num_lanes, k_lanes);
+  // If all keys are to be sorted, there is no k-th key to select.
+  if (k_lanes < num_lanes) HeapSelect(st, lanes, num_lanes, k_lanes);
   HeapSort(st, lanes, k_lanes);
 }
 
-- 
2.43.0


From f0c0e8405c3a86c523734072d6b2beab31b886d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:52 +0000
Subject: [PATCH 37/45] fix: PartialSort and Select lost keys if there are NaN

NaN are replaced with a sentinel, then the last keys overwritten with NaN. Unlike
after Sort, the last keys are not necessarily the sentinels, so other keys were
lost and sentinels left in place.
---
 hwy/contrib/sort/vqsort-inl.h | 46 +++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index bc1df2e..32b15e0 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -1951,6 +1951,29 @@ HWY_INLINE size_t CountAndReplaceNaN(D, Traits, T* HWY_RESTRICT, size_t) {
   return 0;
 }
 
+// Swaps `num_nan` of the keys equal to the sentinel to the end of `keys`. Called
+// after `CountAndReplaceNaN` if the subsequent operation might leave sentinels
+// in the middle, because the caller overwrites the last `num_nan` keys with NaN.
+template <class D, class Traits, typename T, HWY_IF_FLOAT(T)>
+HWY_INLINE void MoveSentinelsToBack(D d, Traits st, T* HWY_RESTRICT keys,
+                                    size_t num, size_t num_nan) {
+  using TU = MakeUnsigned<T>;
+  const TU sentinel = BitCastScalar<TU>(GetLane(st.LastValue(d)));
+  size_t from = 0;
+  for (size_t to = num - num_nan; to < num; ++to) {
+    if (BitCastScalar<TU>(keys[to]) == sentinel) continue;
+    // There are at least `num_nan` sentinels, hence we will find one.
+    while (BitCastScalar<TU>(keys[from]) != sentinel) ++from;
+    const T other = keys[to];
+    keys[to] = keys[from];
+    keys[from] = other;
+  }
+}
+
+template <class D, class Traits, typename T, HWY_IF_NOT_FLOAT(T)>
+HWY_INLINE void MoveSentinelsToBack(D, Traits, T* HWY_RESTRICT, size_t,
+                                    size_t) {}
+
 }  // namespace detail
 
 // Old interface with user-specified buffer, retained for compatibility. Called
@@ -2014,6 +2037,12 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
 #endif  // HWY_MAX_BYTES > 64
 
   const size_t num_nan = detail::CountAndReplaceNaN(d, st, keys, num);
+  if (num_nan != 0) {
+    // Only the other keys are rearranged; NaN are last in any order.
+    detail::MoveSentinelsToBack(d, st, keys, num, num_nan);
+    num -= num_nan;
+    k = HWY_MIN(k, num);
+  }
 
 #if VQSORT_ENABLED || HWY_IDE
   if (!detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
@@ -2037,13 +2066,13 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
 #endif  // VQSORT_ENABLED
 
   if (num_nan != 0) {
-    Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
+    Fill(d, GetLane(NaN(d)), num_nan, keys + num);
   }
 }
 
 template <class D, class Traits, typename T>
-void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
-            const size_t k, T* HWY_RESTRICT buf) {
+void Select(D d, Traits st, T* HWY_RESTRICT keys, size_t num, const size_t k,
+            T* HWY_RESTRICT buf) {
   if (VQSORT_PRINT >= 1) {
     fprintf(stderr, "=============== Select %s num=%zu, k=%zu vec bytes=%zu\n",
             st.KeyString(), num, k, sizeof(T) * Lanes(d));
@@ -2058,6 +2087,13 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
 #endif  // HWY_MAX_BYTES > 64
 
   const size_t num_nan = detail::CountAndReplaceNaN(d, st, keys, num);
+  if (num_nan != 0) {
+    // Only the other keys are rearranged; NaN are last in any order.
+    detail::MoveSentinelsToBack(d, st, keys, num, num_nan);
+    num -= num_nan;
+    Fill(d, GetLane(NaN(d)), num_nan, keys + num);
+    if (k >= num) return;
+  }
 
 #if VQSORT_ENABLED || HWY_IDE
   if (!detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
@@ -2076,10 +2112,6 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
   }
   detail::HeapSelect(st, keys, num, k);
 #endif  // VQSORT_ENABLED
-
-  if (num_nan != 0) {
-    Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
-  }
 }
 
 // Sorts `keys[0..num-1]` according to the order defined by `st.Compare`.
-- 
2.43.0


From 548644aeba6646f2ad7681cec96bf1e0d81993bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:28 +0000
Subject: [PATCH 38/45] fix: VectorXoshiro wrote past the end of the result if
 the count is not a multiple of the vector size

---
 hwy/contrib/random/random-inl.h | 38 +++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/random/random-inl.h b/hwy/contrib/random/random-inl.h
index 4779ef5..e131cb9 100644
--- a/hwy/contrib/random/random-inl.h
+++ b/hwy/contrib/random/random-inl.h
@@ -207,10 +207,16 @@ class VectorXoshiro {
     auto s1 = Load(tag, state_[{1}].data());
     auto s2 = Load(tag, state_[{2}].data());
     auto s3 = Load(tag, state_[{3}].data());
-    for (std::uint64_t i = 0; i < n; i += Lanes(tag)) {
+    const std::size_t lanes = Lanes(tag);
+    std::size_t i = 0;
+    for (; i + lanes <= n; i += lanes) {
       const auto next = Update(s0, s1, s2, s3);
       Store(next, tag, result.data() + i);
     }
+    if (i < n) {  // Do not write past the end of `result`.
+      const auto next = Update(s0, s1, s2, s3);
+      StoreN(next, tag, result.data() + i, n - i);
+    }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
     Store(s2, tag, state_[{2}].data());
@@ -226,10 +232,16 @@ class VectorXoshiro {
     auto s1 = Load(tag, state_[{1}].data());
     auto s2 = Load(tag, state_[{2}].data());
     auto s3 = Load(tag, state_[{3}].data());
-    for (std::uint64_t i = 0; i < N; i += Lanes(tag)) {
+    const std::size_t lanes = Lanes(tag);
+    std::size_t i = 0;
+    for (; i + lanes <= N; i += lanes) {
       const auto next = Update(s0, s1, s2, s3);
       Store(next, tag, result.data() + i);
     }
+    if (i < N) {  // Do not write past the end of `result`.
+      const auto next = Update(s0, s1, s2, s3);
+      StoreN(next, tag, result.data() + i, N - i);
+    }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
     Store(s2, tag, state_[{2}].data());
@@ -264,13 +276,22 @@ class VectorXoshiro {
     auto s2 = Load(tag, state_[{2}].data());
     auto s3 = Load(tag, state_[{3}].data());
 
-    for (std::uint64_t i = 0; i < n; i += Lanes(real_tag)) {
+    const std::size_t lanes = Lanes(real_tag);
+    std::size_t i = 0;
+    for (; i + lanes <= n; i += lanes) {
       const auto next = Update(s0, s1, s2, s3);
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
       Store(uniform, real_tag, result.data() + i);
     }
+    if (i < n) {  // Do not write past the end of `result`.
+      const auto next = Update(s0, s1, s2, s3);
+      const auto bits = ShiftRight<11>(next);
+      const auto real = ConvertTo(real_tag, bits);
+      const auto uniform = Mul(real, MUL_VALUE);
+      StoreN(uniform, real_tag, result.data() + i, n - i);
+    }
 
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -291,13 +312,22 @@ class VectorXoshiro {
     auto s2 = Load(tag, state_[{2}].data());
     auto s3 = Load(tag, state_[{3}].data());
 
-    for (std::uint64_t i = 0; i < N; i += Lanes(real_tag)) {
+    const std::size_t lanes = Lanes(real_tag);
+    std::size_t i = 0;
+    for (; i + lanes <= N; i += lanes) {
       const auto next = Update(s0, s1, s2, s3);
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
       Store(uniform, real_tag, result.data() + i);
     }
+    if (i < N) {  // Do not write past the end of `result`.
+      const auto next = Update(s0, s1, s2, s3);
+      const auto bits = ShiftRight<11>(next);
+      const auto real = ConvertTo(real_tag, bits);
+      const auto uniform = Mul(real, MUL_VALUE);
+      StoreN(uniform, real_tag, result.data() + i, N - i);
+    }
 
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
-- 
2.43.0


From 69266bde6da1bbc237ea96227b6e97f20058cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:09 +0000
Subject: [PATCH 39/45] fix: SinCos was inaccurate near multiples of pi/2

The error of float32 reached 10^6 ULP without FMA (180 with FMA), and that of
float64 5*10^4 ULP, because the products with parts of pi/4 were not exact or
the parts did not have enough bits.
---
 hwy/contrib/math/math-inl.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/hwy/contrib/math/math-inl.h b/hwy/contrib/math/math-inl.h
index d741684..7abbee6 100644
--- a/hwy/contrib/math/math-inl.h
+++ b/hwy/contrib/math/math-inl.h
@@ -340,7 +340,7 @@ HWY_NOINLINE V CallTanh(const D d, VecArg<V> x) {
  * The performance should be around the same as calling Sin.
  *
  * Valid Lane Types: float32, float64
- *        Max Error: ULP = 1
+ *        Max Error: ULP = 3 for float32, 1 for float64
  *      Valid Range: [-39000, +39000]
  * @return sine and cosine of 'x'
  */
@@ -1073,8 +1073,8 @@ HWY_INLINE V Log(const D d, V x) {
 
 // Third degree poly
 template <class D, class V>
-HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
-                        V& s, V& c) {
+HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3,
+                        TFromD<D> dp4, V x, V& s, V& c) {
   using T = TFromD<D>;
   using TI = MakeSigned<T>;
   using DI = Rebind<TI, D>;
@@ -1098,6 +1098,7 @@ HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
   const V DP1 = Set(d, dp1);
   const V DP2 = Set(d, dp2);
   const V DP3 = Set(d, dp3);
+  const V DP4 = Set(d, dp4);
 
   V xmm1, xmm2, sign_bit_sin, y;
   VI imm0, imm2, imm4;
@@ -1132,10 +1133,11 @@ HWY_INLINE void SinCos3(D d, TFromD<D> dp1, TFromD<D> dp2, TFromD<D> dp3, V x,
   M poly_mask = RebindMask(d, Eq(imm2, ci_0));
 
   /* The magic pass: "Extended precision modular arithmetic"
-  x = ((x - y * DP1) - y * DP2) - y * DP3; */
+  x = (((x - y * DP1) - y * DP2) - y * DP3) - y * DP4; */
   x = MulAdd(y, DP1, x);
   x = MulAdd(y, DP2, x);
   x = MulAdd(y, DP3, x);
+  x = MulAdd(y, DP4, x);
 
   imm4 = Sub(imm4, ci_2);
   imm4 = AndNot(imm4, ci_4);
@@ -1285,8 +1287,10 @@ template <>
 struct SinCosImpl<float> {
   template <class D, class V>
   HWY_INLINE void SinCos(D d, V x, V& s, V& c) {
-    SinCos3(d, -0.78515625f, -2.4187564849853515625e-4f,
-            -3.77489497744594108e-8f, x, s, c);
+    // The products with integers up to 2^16 are exact, except for the last.
+    SinCos3(d, -0.25f * 3.140625f, -0.25f * 0.0009670257568359375f,
+            -0.25f * 6.2771141529083251953e-7f,
+            -0.25f * 1.2154201256553420762e-10f, x, s, c);
   }
 };
 
@@ -1295,8 +1299,10 @@ template <>
 struct SinCosImpl<double> {
   template <class D, class V>
   HWY_INLINE void SinCos(D d, V x, V& s, V& c) {
-    SinCos6(d, -7.85398125648498535156E-1, -3.77489470793079817668E-8,
-            -2.69515142907905952645E-15, x, s, c);
+    // 37 + 37 + 53 bits of -pi/4: the first two products with integers up to 2^16
+    // are exact.
+    SinCos6(d, -0.7853981633961666, -1.2816720757919779e-12,
+            -5.281499533493714e-24, x, s, c);
   }
 };
 #endif
-- 
2.43.0


From 0a5f2b91a508c50ba60241c71ed74c282a129b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 40/45] fix: Atan2 of zero and negative zero is +-pi, not +-0

---
 hwy/contrib/math/math-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/math/math-inl.h b/hwy/contrib/math/math-inl.h
index 7abbee6..434742d 100644
--- a/hwy/contrib/math/math-inl.h
+++ b/hwy/contrib/math/math-inl.h
@@ -144,7 +144,8 @@ HWY_INLINE V Atan2(const D d, V y, V x) {
   const V k0 = Zero(d);
   const M y_0 = Eq(y, k0);
   const M x_0 = Eq(x, k0);
-  const M x_neg = Lt(x, k0);
+  // Includes -0, unlike Lt(x, k0).
+  const M x_neg = Lt(CopySignToAbs(Set(d, static_cast<T>(1)), x), k0);
   const M y_inf = IsInf(y);
   const M x_inf = IsInf(x);
   const M nan = Or(IsNaN(y), IsNaN(x));
-- 
2.43.0


From 48b9aa9db907aa4f6351101818648e3485fac063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:59 +0000
Subject: [PATCH 41/45] fix: profiler printed a zone twice if its duplicate was
 the last zone

MergeDuplicates added the calls and duration of the last duplicate to the first
zone with that name, but left it in the list.
---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 29f697d..25ee038 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -355,9 +355,8 @@ class Results {
         if (!strcmp(name, string_origin + zones_[j].BiasedOffset())) {
           num_calls += zones_[j].NumCalls();
           zones_[i].Add(0, zones_[j].Duration());
-          // j was the last zone, so we are done.
-          if (j == num_zones_ - 1) break;
-          // Replace current zone with the last one, and check it next.
+          // Replace current zone with the last one, and check it next. If this
+          // was the last zone, that only removes it.
           zones_[j] = zones_[--num_zones_];
         } else {  // Name differed, try next Accumulator.
           ++j;
-- 
2.43.0


From 2e39f437c7fdc7db3ffc99c5a416cd348ec94507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:59 +0000
Subject: [PATCH 42/45] fix: printing profiler results without any zones
 dereferenced null

---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 25ee038..86f8d66 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -496,6 +496,7 @@ class ThreadList {
   void PrintResults() {
     const auto acq = std::memory_order_acquire;
     const size_t num_threads = num_threads_.load(acq);
+    if (num_threads == 0) return;  // No zones entered.
 
     ThreadSpecific* main = threads_[0].load(acq);
     main->AnalyzeRemainingPackets();
@@ -506,9 +507,7 @@ class ThreadList {
       main->GetResults().Assimilate(ts->GetResults());
     }
 
-    if (num_threads != 0) {
-      main->GetResults().Print();
-    }
+    main->GetResults().Print();
   }
 
  private:
-- 
2.43.0


From a7a761193e60905710f5565a8ff4b8ee62224ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:25 +0000
Subject: [PATCH 43/45] fix: PerfCounters::Init returned true although no
 counter is available

---
 hwy/perf_counters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/perf_counters.cc b/hwy/perf_counters.cc
index 472d19b..4884d21 100644
--- a/hwy/perf_counters.cc
+++ b/hwy/perf_counters.cc
@@ -290,7 +290,7 @@ class PMU {
       return true;
     } else {
       HWY_WARN("No valid counters found.");
-      return true;
+      return false;
     }
   }
 
-- 
2.43.0


From b10e592d64dcd18c4d8669beca256b92f17ebf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:40 +0000
Subject: [PATCH 44/45] fix: print large f64 lanes with their magnitude

ToString formats f64 with %.18f into 100 bytes, hence values of 1E81 and above
lost their trailing digits, including the magnitude. Use an exponent instead.
---
 hwy/print.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/print.cc b/hwy/print.cc
index b2c68b1..e938a17 100644
--- a/hwy/print.cc
+++ b/hwy/print.cc
@@ -82,7 +82,9 @@ HWY_DLLEXPORT void ToString(const TypeInfo& info, const void* ptr,
     if (info.is_float) {
       double value;
       CopyBytes<8>(ptr, &value);
-      const char* fmt = hwy::ScalarAbs(value) < 1E-9 ? "%.18E" : "%.18f";
+      const double abs = hwy::ScalarAbs(value);
+      // Very large values also use exponents because they would not fit.
+      const char* fmt = (abs < 1E-9 || abs >= 1E60) ? "%.18E" : "%.18f";
       snprintf(string100, 100, fmt, value);  // NOLINT
     } else {
       const uint8_t* ptr8 = reinterpret_cast<const uint8_t*>(ptr);
-- 
2.43.0


From bbfac8c138ce54758c70d8fbfe767ea71edda1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:40 +0000
Subject: [PATCH 45/45] fix: print bf16 vectors' type as bf16 instead of i16

TypeInfo::is_float is false for bfloat16_t, which is signed.
---
 hwy/print.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hwy/print.cc b/hwy/print.cc
index e938a17..a9809b7 100644
--- a/hwy/print.cc
+++ b/hwy/print.cc
@@ -24,15 +24,17 @@ namespace hwy {
 namespace detail {
 
 HWY_DLLEXPORT void TypeName(const TypeInfo& info, size_t N, char* string100) {
-  const char prefix = info.is_float ? 'f' : (info.is_signed ? 'i' : 'u');
+  // is_float is false for bf16.
+  const char* prefix =
+      info.is_bf16 ? "bf" : (info.is_float ? "f" : (info.is_signed ? "i" : "u"));
   // Omit the xN suffix for scalars.
   if (N == 1) {
     // NOLINTNEXTLINE
-    snprintf(string100, 64, "%c%d", prefix,
+    snprintf(string100, 64, "%s%d", prefix,
              static_cast<int>(info.sizeof_t * 8));
   } else {
     // NOLINTNEXTLINE
-    snprintf(string100, 64, "%c%dx%d", prefix,
+    snprintf(string100, 64, "%s%dx%d", prefix,
              static_cast<int>(info.sizeof_t * 8), static_cast<int>(N));
   }
 }
-- 
2.43.0

