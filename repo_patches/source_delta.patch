From b2e850b1cabecd5dcbe67a14707e2208a6176142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 01/44] fix: thread_pool: give BarrierCounter its own storage

With 61 to 63 threads, the counters of Counter2/Counter4 barriers were stored
in the barrier_epoch_ of the last threads. A value left over from a
previous wait could equal the epoch that BarrierOrdered/BarrierGroup waits for
right after switching config, so the main thread did not wait for that thread,
which then ran its tasks twice or missed a wakeup.
---
 hwy/contrib/thread_pool/thread_pool.h | 28 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/hwy/contrib/thread_pool/thread_pool.h b/hwy/contrib/thread_pool/thread_pool.h
index 0d6a518..f4a552e 100644
--- a/hwy/contrib/thread_pool/thread_pool.h
+++ b/hwy/contrib/thread_pool/thread_pool.h
@@ -646,9 +646,13 @@ struct WaitSpinSeparate {
 
 // ------------------------------ Barrier: Main thread waits for workers
 
+// Upper bound on `kShards`; `ThreadPool` reserves storage for that many.
+static constexpr size_t kMaxBarrierShards = 4;
+
 // Single atomic counter. TODO: remove if not competitive?
 template <size_t kShards>
 class BarrierCounter {
+  static_assert(kShards <= kMaxBarrierShards, "");
   static_assert(kShards == 1 || kShards == 2 || kShards == 4, "");  // pow2
 
  public:
@@ -660,9 +664,10 @@ class BarrierCounter {
 
   void Reset(Worker* workers) const {
     for (size_t i = 0; i < kShards; ++i) {
-      // Use last worker(s) to avoid contention with other stores to the Worker.
-      // Note that there are kMaxThreads + 1 workers, hence i == 0 is the last.
-      workers[kMaxThreads - i].StoreBarrier(0);
+      // Use the last worker and those after it: no thread may own this storage,
+      // because counts left over here could equal the epoch that a subsequent
+      // `BarrierOrdered` or `BarrierGroup` waits for.
+      workers[kMaxThreads + i].StoreBarrier(0);
     }
   }
 
@@ -671,7 +676,7 @@ class BarrierCounter {
                      uint32_t /*epoch*/) const {
     const size_t shard = worker->Index() & (kShards - 1);
     const auto kAcqRel = std::memory_order_acq_rel;
-    worker->AllWorkers()[kMaxThreads - shard].MutableBarrier().fetch_add(
+    worker->AllWorkers()[kMaxThreads + shard].MutableBarrier().fetch_add(
         1, kAcqRel);
   }
 
@@ -686,8 +691,8 @@ class BarrierCounter {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads + 0].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 1].Barrier().load(kAcq);
         if (sum == num_threads) break;
       }
     }
@@ -695,10 +700,10 @@ class BarrierCounter {
       const auto kAcq = std::memory_order_acquire;
       for (;;) {
         hwy::Pause();
-        const uint64_t sum = workers[kMaxThreads - 0].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 1].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 2].Barrier().load(kAcq) +
-                             workers[kMaxThreads - 3].Barrier().load(kAcq);
+        const uint64_t sum = workers[kMaxThreads + 0].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 1].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 2].Barrier().load(kAcq) +
+                             workers[kMaxThreads + 3].Barrier().load(kAcq);
         if (sum == num_threads) break;
       }
     }
@@ -1279,7 +1284,8 @@ class alignas(HWY_ALIGNMENT) ThreadPool {
   // bind it to the NUMA node's memory. Not stored inside `WorkerLifecycle`
   // because that class would be initialized after `workers_`.
   alignas(HWY_ALIGNMENT) uint8_t
-      worker_bytes_[sizeof(pool::Worker) * (pool::kMaxThreads + 1)];
+      worker_bytes_[sizeof(pool::Worker) *
+                    (pool::kMaxThreads + pool::kMaxBarrierShards)];
 };
 
 }  // namespace hwy
-- 
2.43.0


From 0ff038273a2b0707dd2e8f07808a09054fa095ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 02/44] fix: x86 ZeroIfNegative for 256-bit integer and 16-bit
 lanes on AVX2

---
 hwy/ops/x86_256-inl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 7e3f405..881ebac 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1181,11 +1181,11 @@ HWY_API Vec256<T> IfThenZeroElse(Mask256<T> mask, Vec256<T> no) {
 
 template <typename T>
 HWY_API Vec256<T> ZeroIfNegative(Vec256<T> v) {
-  static_assert(IsSigned<T>(), "Only for float");
+  static_assert(IsSigned<T>(), "Only works for signed/float");
   const DFromV<decltype(v)> d;
-  const auto zero = Zero(d);
-  // AVX2 IfThenElse only looks at the MSB for 32/64-bit lanes
-  return IfThenElse(MaskFromVec(v), zero, v);
+  // Not IfThenElse(MaskFromVec(v), ..): on AVX2 that looks at the MSB of each
+  // byte unless lanes are 32/64-bit floats.
+  return IfNegativeThenElse(v, Zero(d), v);
 }
 
 // ------------------------------ Mask logical
-- 
2.43.0


From 7413e08fe5516ddbf5eb28c739ef52b9dba37032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 03/44] fix: x86 AVX2/AVX3 Ne of floats is true if either
 operand is NaN

---
 hwy/ops/x86_128-inl.h |  6 +++---
 hwy/ops/x86_256-inl.h | 10 +++++-----
 hwy/ops/x86_512-inl.h |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 3f5c223..2040b97 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -2674,19 +2674,19 @@ HWY_API Mask128<float16_t, N> operator!=(Vec128<float16_t, N> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float16_t, N>{_mm_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 template <size_t N>
 HWY_API Mask128<float, N> operator!=(Vec128<float, N> a, Vec128<float, N> b) {
-  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<float, N>{_mm_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 template <size_t N>
 HWY_API Mask128<double, N> operator!=(Vec128<double, N> a,
                                       Vec128<double, N> b) {
-  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask128<double, N>{_mm_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_256-inl.h b/hwy/ops/x86_256-inl.h
index 881ebac..30fc1f3 100644
--- a/hwy/ops/x86_256-inl.h
+++ b/hwy/ops/x86_256-inl.h
@@ -1333,16 +1333,16 @@ HWY_API Mask256<float16_t> operator!=(Vec256<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float16_t>{_mm256_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
@@ -1560,10 +1560,10 @@ HWY_API Mask256<T> operator!=(Vec256<T> a, Vec256<T> b) {
   return Not(a == b);
 }
 HWY_API Mask256<float> operator!=(Vec256<float> a, Vec256<float> b) {
-  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<float>{_mm256_cmp_ps(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 HWY_API Mask256<double> operator!=(Vec256<double> a, Vec256<double> b) {
-  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask256<double>{_mm256_cmp_pd(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
diff --git a/hwy/ops/x86_512-inl.h b/hwy/ops/x86_512-inl.h
index a310333..5429fa9 100644
--- a/hwy/ops/x86_512-inl.h
+++ b/hwy/ops/x86_512-inl.h
@@ -2469,17 +2469,17 @@ HWY_API Mask512<float16_t> operator!=(Vec512<float16_t> a,
   // Work around warnings in the intrinsic definitions (passing -1 as a mask).
   HWY_DIAGNOSTICS(push)
   HWY_DIAGNOSTICS_OFF(disable : 4245 4365, ignored "-Wsign-conversion")
-  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float16_t>{_mm512_cmp_ph_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
   HWY_DIAGNOSTICS(pop)
 }
 #endif  // HWY_HAVE_FLOAT16
 
 HWY_API Mask512<float> operator!=(Vec512<float> a, Vec512<float> b) {
-  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<float>{_mm512_cmp_ps_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 HWY_API Mask512<double> operator!=(Vec512<double> a, Vec512<double> b) {
-  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_OQ)};
+  return Mask512<double>{_mm512_cmp_pd_mask(a.raw, b.raw, _CMP_NEQ_UQ)};
 }
 
 // ------------------------------ Strict inequality
-- 
2.43.0


From a06ae586401e7486bb5d6a378d3f4b555e493c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 04/44] fix: generic LoadNOr takes each remaining lane from the
 same lane of no

---
 hwy/ops/generic_ops-inl.h | 153 ++------------------------------------
 1 file changed, 8 insertions(+), 145 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 4415f30..9af6b1f 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -2440,13 +2440,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return (num_lanes > 0) ? LoadU(d, p) : Zero(d);
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 1),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  return (num_lanes > 0) ? LoadU(d, p) : no;
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 2),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2458,17 +2451,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return detail::LoadNResizeBitCast(d, d1, LoadU(d1, p));
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 2),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 1> d1;
-
-  if (num_lanes >= 2) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  return InterleaveLower(ResizeBitCast(d, LoadU(d1, p)), no);
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2485,22 +2467,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return (num_lanes == 2) ? v_lo : InsertLane(v_lo, 2, p[2]);
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 4),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 2> d2;
-
-  if (num_lanes >= 4) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  // Two or three lanes.
-  const VFromD<D> v_lo =
-      ConcatUpperLower(d, no, ResizeBitCast(d, LoadU(d2, p)));
-  return (num_lanes == 2) ? v_lo : InsertLane(v_lo, 2, p[2]);
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2537,44 +2503,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 8),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 4> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
-  if (num_lanes >= 8) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 4;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    return Combine(d, v_trailing, LoadU(d4, p));
-  } else {
-    return ConcatUpperLower(d, no, ResizeBitCast(d, v_trailing));
-  }
-}
-
 template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
           HWY_IF_NOT_BF16_D(D)>
 HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
@@ -2621,60 +2549,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_LE_D(D, 16), HWY_IF_LANES_D(D, 16),
-          HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  const FixedTag<TFromD<D>, 8> d8;
-  const Half<decltype(d8)> d4;
-  const Half<decltype(d4)> d2;
-  const Half<decltype(d2)> d1;
-
-  if (num_lanes >= 16) return LoadU(d, p);
-  if (num_lanes == 0) return no;
-  if (num_lanes == 1) return InsertLane(no, 0, p[0]);
-
-  const size_t leading_len = num_lanes & 12;
-  VFromD<decltype(d4)> v_trailing = ResizeBitCast(d4, no);
-
-  if ((num_lanes & 2) != 0) {
-    const VFromD<decltype(d2)> v_trailing_lo2 = LoadU(d2, p + leading_len);
-    if ((num_lanes & 1) != 0) {
-      v_trailing = Combine(
-          d4,
-          InterleaveLower(ResizeBitCast(d2, LoadU(d1, p + leading_len + 2)),
-                          ResizeBitCast(d2, no)),
-          v_trailing_lo2);
-    } else {
-      v_trailing = ConcatUpperLower(d4, ResizeBitCast(d4, no),
-                                    ResizeBitCast(d4, v_trailing_lo2));
-    }
-  } else if ((num_lanes & 1) != 0) {
-    v_trailing = InsertLane(ResizeBitCast(d4, no), 0, p[leading_len]);
-  }
-
-  if (leading_len != 0) {
-    if (leading_len >= 8) {
-      const VFromD<decltype(d8)> v_hi7 =
-          ((leading_len & 4) != 0)
-              ? Combine(d8, v_trailing, LoadU(d4, p + 8))
-              : ConcatUpperLower(d8, ResizeBitCast(d8, no),
-                                 ResizeBitCast(d8, v_trailing));
-      return Combine(d, v_hi7, LoadU(d8, p));
-    } else {
-      return ConcatUpperLower(
-          d, ResizeBitCast(d, no),
-          ResizeBitCast(d, Combine(d8, v_trailing, LoadU(d4, p))));
-    }
-  } else {
-    const Repartition<uint32_t, D> du32;
-    // lowest 4 bytes from v_trailing, next 4 from no.
-    const VFromD<decltype(du32)> lo8 =
-        InterleaveLower(ResizeBitCast(du32, v_trailing), BitCast(du32, no));
-    return ConcatUpperLower(d, ResizeBitCast(d, no), ResizeBitCast(d, lo8));
-  }
-}
-
 #if HWY_MAX_BYTES >= 32
 
 template <class D, HWY_IF_V_SIZE_GT_D(D, 16), HWY_IF_NOT_BF16_D(D)>
@@ -2693,25 +2567,6 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   }
 }
 
-template <class D, HWY_IF_V_SIZE_GT_D(D, 16), HWY_IF_NOT_BF16_D(D)>
-HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
-                          size_t num_lanes) {
-  if (num_lanes >= Lanes(d)) return LoadU(d, p);
-
-  const Half<decltype(d)> dh;
-  const size_t half_N = Lanes(dh);
-  const VFromD<decltype(dh)> no_h = LowerHalf(no);
-  if (num_lanes <= half_N) {
-    return ConcatUpperLower(d, no,
-                            ResizeBitCast(d, LoadNOr(no_h, dh, p, num_lanes)));
-  } else {
-    const VFromD<decltype(dh)> v_lo = LoadU(dh, p);
-    const VFromD<decltype(dh)> v_hi =
-        LoadNOr(no_h, dh, p + half_N, num_lanes - half_N);
-    return Combine(d, v_hi, v_lo);
-  }
-}
-
 #endif  // HWY_MAX_BYTES >= 32
 
 template <class D, HWY_IF_BF16_D(D)>
@@ -2721,6 +2576,14 @@ HWY_API VFromD<D> LoadN(D d, const TFromD<D>* HWY_RESTRICT p,
   return BitCast(d, LoadN(du, detail::U16LanePointer(p), num_lanes));
 }
 
+template <class D, HWY_IF_NOT_BF16_D(D)>
+HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
+                          size_t num_lanes) {
+  // Also ensures num_lanes is within the range supported by FirstN.
+  if (num_lanes >= Lanes(d)) return LoadU(d, p);
+  return IfThenElse(FirstN(d, num_lanes), LoadN(d, p, num_lanes), no);
+}
+
 template <class D, HWY_IF_BF16_D(D)>
 HWY_API VFromD<D> LoadNOr(VFromD<D> no, D d, const TFromD<D>* HWY_RESTRICT p,
                           size_t num_lanes) {
-- 
2.43.0


From 0fc3781464e82dbf8024cb29d4651a2bbf326870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 05/44] fix: scalar MaskedLoad must not access memory if the
 mask is false

---
 hwy/ops/scalar-inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 36669f0..2ec7d58 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1084,13 +1084,14 @@ HWY_API Vec1<T> Load(D /* tag */, const T* HWY_RESTRICT aligned) {
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoad(Mask1<T> m, D d, const T* HWY_RESTRICT aligned) {
-  return IfThenElseZero(m, Load(d, aligned));
+  // Must not access memory if the mask is false.
+  return m.bits ? Load(d, aligned) : Zero(d);
 }
 
 template <class D, typename T = TFromD<D>>
 HWY_API Vec1<T> MaskedLoadOr(Vec1<T> v, Mask1<T> m, D d,
                              const T* HWY_RESTRICT aligned) {
-  return IfThenElse(m, Load(d, aligned), v);
+  return m.bits ? Load(d, aligned) : v;
 }
 
 template <class D, HWY_IF_LANES_D(D, 1), typename T = TFromD<D>>
-- 
2.43.0


From 6208624c0efb3563ca1f75ef02bc6d0ab47e2809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 06/44] fix: EMU128 ShiftLeft/RightBytes of partial vectors by
 more bytes than they have

---
 hwy/ops/emu128-inl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 6ac7a50..f601207 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1596,8 +1596,10 @@ HWY_API VFromD<D> ShiftLeftBytes(D d, VFromD<D> v) {
   VFromD<D> ret;
   uint8_t* HWY_RESTRICT ret8 =
       reinterpret_cast<uint8_t * HWY_RESTRICT>(ret.raw);
-  ZeroBytes<kBytes>(ret8);
-  CopyBytes<d.MaxBytes() - kBytes>(v.raw, ret8 + kBytes);
+  // Partial vectors may have fewer than kBytes.
+  constexpr size_t kShift = HWY_MIN(static_cast<size_t>(kBytes), d.MaxBytes());
+  ZeroBytes<kShift>(ret8);
+  CopyBytes<d.MaxBytes() - kShift>(v.raw, ret8 + kShift);
   return ret;
 }
 
@@ -1628,8 +1630,10 @@ HWY_API VFromD<D> ShiftRightBytes(D d, VFromD<D> v) {
       reinterpret_cast<const uint8_t * HWY_RESTRICT>(v.raw);
   uint8_t* HWY_RESTRICT ret8 =
       reinterpret_cast<uint8_t * HWY_RESTRICT>(ret.raw);
-  CopyBytes<d.MaxBytes() - kBytes>(v8 + kBytes, ret8);
-  ZeroBytes<kBytes>(ret8 + d.MaxBytes() - kBytes);
+  // Partial vectors may have fewer than kBytes.
+  constexpr size_t kShift = HWY_MIN(static_cast<size_t>(kBytes), d.MaxBytes());
+  CopyBytes<d.MaxBytes() - kShift>(v8 + kShift, ret8);
+  ZeroBytes<kShift>(ret8 + d.MaxBytes() - kShift);
   return ret;
 }
 
-- 
2.43.0


From 0ae580938ce412998245b0c9d21578e91acc700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 07/44] fix: scalar ZipLower of negative signed lanes returns
 the bits of both

---
 hwy/ops/scalar-inl.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 2ec7d58..2a707a0 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -1912,18 +1912,20 @@ HWY_API Vec1<uint64_t> ZipLower(Vec1<uint32_t> a, Vec1<uint32_t> b) {
   return Vec1<uint64_t>((uint64_t{b.raw} << 32) + a.raw);
 }
 HWY_API Vec1<int16_t> ZipLower(Vec1<int8_t> a, Vec1<int8_t> b) {
-  return Vec1<int16_t>(static_cast<int16_t>((int32_t{b.raw} << 8) + a.raw));
+  return Vec1<int16_t>(static_cast<int16_t>((int32_t{b.raw} << 8) +
+                                            static_cast<uint8_t>(a.raw)));
 }
 HWY_API Vec1<int32_t> ZipLower(Vec1<int16_t> a, Vec1<int16_t> b) {
-  return Vec1<int32_t>((int32_t{b.raw} << 16) + a.raw);
+  return Vec1<int32_t>((int32_t{b.raw} << 16) + static_cast<uint16_t>(a.raw));
 }
 HWY_API Vec1<int64_t> ZipLower(Vec1<int32_t> a, Vec1<int32_t> b) {
-  return Vec1<int64_t>((int64_t{b.raw} << 32) + a.raw);
+  return Vec1<int64_t>((int64_t{b.raw} << 32) + static_cast<uint32_t>(a.raw));
 }
 
 template <class DW, typename TW = TFromD<DW>, typename TN = MakeNarrow<TW>>
 HWY_API Vec1<TW> ZipLower(DW /* tag */, Vec1<TN> a, Vec1<TN> b) {
-  return Vec1<TW>(static_cast<TW>((TW{b.raw} << (sizeof(TN) * 8)) + a.raw));
+  return Vec1<TW>(static_cast<TW>((TW{b.raw} << (sizeof(TN) * 8)) +
+                                   static_cast<MakeUnsigned<TN>>(a.raw)));
 }
 
 // ================================================== MASK
-- 
2.43.0


From 82cdc61fbee6cabe79304511222f2dc9f3e7b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 08/44] fix: generic CompressBitsStore ignores unused mask bits
 of partial 8-bit vectors

---
 hwy/ops/generic_ops-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 9af6b1f..f6487dc 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -5899,7 +5899,8 @@ HWY_API size_t CompressBitsStore(V v, const uint8_t* HWY_RESTRICT bits, D d,
   for (size_t i = 0; i < Lanes(d); i += 8) {
     // Each byte worth of bits is the index of one of 256 8-byte ranges, and its
     // population count determines how far to advance the write position.
-    const size_t bits8 = bits[i / 8];
+    // As in LoadMaskBits, any unused bits are treated as if they were zero.
+    const size_t bits8 = bits[i / 8] & ((size_t{1} << MaxLanes(d8)) - 1);
     const auto indices = Load(d8, table + bits8 * 8);
     const auto compressed = TableLookupBytes(LoadU(d8, lanes + i), indices);
     StoreU(compressed, d8, pos);
-- 
2.43.0


From ac0110fbddb408434e69f0e44470b540263fff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 09/44] fix: BitSet4096 rounds up its storage if kMaxSize is
 not a multiple of 64

---
 hwy/bit_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/bit_set.h b/hwy/bit_set.h
index f8f921b..29282ea 100644
--- a/hwy/bit_set.h
+++ b/hwy/bit_set.h
@@ -150,7 +150,7 @@ class BitSet4096 {
  private:
   static_assert(kMaxSize <= 64 * 64, "One BitSet64 insufficient");
   BitSet64 nonzero_;
-  BitSet64 bits_[kMaxSize / 64];
+  BitSet64 bits_[(kMaxSize + 63) / 64];
 };
 
 }  // namespace hwy
-- 
2.43.0


From 0e1773d7fd821bdebe303eba959153faa51b4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 10/44] fix: robust_statistics averages and deviations do not
 overflow

---
 hwy/robust_statistics.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hwy/robust_statistics.h b/hwy/robust_statistics.h
index d80a214..ca9f621 100644
--- a/hwy/robust_statistics.h
+++ b/hwy/robust_statistics.h
@@ -57,6 +57,14 @@ void CountingSort(T* values, size_t num_values) {
   HWY_ASSERT(p == values + num_values);
 }
 
+// Returns the average of two values, rounded up, without overflow. Requires
+// `lo <= hi`.
+template <typename T>
+T RoundedAverage(const T lo, const T hi) {
+  const T diff = static_cast<T>(hi - lo);
+  return static_cast<T>(lo + diff / 2 + diff % 2);
+}
+
 // @return i in [idx_begin, idx_begin + half_count) that minimizes
 // sorted[i + half_count] - sorted[i].
 template <typename T>
@@ -97,8 +105,7 @@ T ModeOfSorted(const T* const HWY_RESTRICT sorted, const size_t num_values) {
     return x;
   }
   HWY_ASSERT(half_count == 1);
-  const T average = (x + sorted[idx_begin + 1] + 1) / 2;
-  return average;
+  return RoundedAverage(x, sorted[idx_begin + 1]);
 }
 
 // Returns the mode. Side effect: sorts "values".
@@ -124,7 +131,7 @@ T Median(T* values, const size_t num_values) {
     return values[half];
   }
   // Even count: return average of middle two.
-  return (values[half] + values[half - 1] + 1) / 2;
+  return RoundedAverage(values[half - 1], values[half]);
 }
 
 // Returns a robust measure of variability.
@@ -135,9 +142,9 @@ T MedianAbsoluteDeviation(const T* values, const size_t num_values,
   std::vector<T> abs_deviations;
   abs_deviations.reserve(num_values);
   for (size_t i = 0; i < num_values; ++i) {
-    const int64_t abs = ScalarAbs(static_cast<int64_t>(values[i]) -
-                                  static_cast<int64_t>(median));
-    abs_deviations.push_back(static_cast<T>(abs));
+    abs_deviations.push_back(values[i] < median
+                                 ? static_cast<T>(median - values[i])
+                                 : static_cast<T>(values[i] - median));
   }
   return Median(abs_deviations.data(), num_values);
 }
-- 
2.43.0


From 390d41a02ce00f10ac31fae25cf9bfc105222ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 11/44] fix: VectorXoshiro does not write past the requested
 number of elements

---
 hwy/contrib/random/random-inl.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/random/random-inl.h b/hwy/contrib/random/random-inl.h
index 4779ef5..0b68bdd 100644
--- a/hwy/contrib/random/random-inl.h
+++ b/hwy/contrib/random/random-inl.h
@@ -209,7 +209,7 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < n; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreUpTo(next, tag, result.data() + i, n - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -228,7 +228,7 @@ class VectorXoshiro {
     auto s3 = Load(tag, state_[{3}].data());
     for (std::uint64_t i = 0; i < N; i += Lanes(tag)) {
       const auto next = Update(s0, s1, s2, s3);
-      Store(next, tag, result.data() + i);
+      StoreUpTo(next, tag, result.data() + i, N - i);
     }
     Store(s0, tag, state_[{0}].data());
     Store(s1, tag, state_[{1}].data());
@@ -269,7 +269,7 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreUpTo(uniform, real_tag, result.data() + i, n - i);
     }
 
     Store(s0, tag, state_[{0}].data());
@@ -296,7 +296,7 @@ class VectorXoshiro {
       const auto bits = ShiftRight<11>(next);
       const auto real = ConvertTo(real_tag, bits);
       const auto uniform = Mul(real, MUL_VALUE);
-      Store(uniform, real_tag, result.data() + i);
+      StoreUpTo(uniform, real_tag, result.data() + i, N - i);
     }
 
     Store(s0, tag, state_[{0}].data());
@@ -312,6 +312,17 @@ class VectorXoshiro {
   StateType state_;
   const std::uint64_t streams;
 
+  // Stores `v` without writing past the `remaining` elements.
+  template <class D, class V>
+  HWY_INLINE static void StoreUpTo(V v, D d, TFromD<D> *HWY_RESTRICT to,
+                                   std::uint64_t remaining) noexcept {
+    if (HWY_LIKELY(remaining >= Lanes(d))) {
+      Store(v, d, to);
+    } else {
+      StoreN(v, d, to, static_cast<std::size_t>(remaining));
+    }
+  }
+
   HWY_INLINE static VU64 Update(VU64 &s0, VU64 &s1, VU64 &s2,
                                 VU64 &s3) noexcept {
     const auto result = Add(RotateRight<41>(Add(s0, s3)), s0);
-- 
2.43.0


From 7efa79414d899fd4277674dc71bef325df3e239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 12/44] fix: x86 AVX10 targets require OS support for opmask
 and ZMM state

---
 hwy/targets.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index e976da7..0b40020 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -405,7 +405,8 @@ static int64_t DetectTargets() {
 #endif
 
     const uint32_t xcr0 = ReadXCR0();
-    constexpr int64_t min_avx3 = HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
+    // Also includes AVX10, which likewise requires opmask and ZMM state.
+    constexpr int64_t min_avx3 = HWY_AVX3 | (HWY_AVX3 - 1);
     // XMM/YMM
     if (!IsBitSet(xcr0, 1) || !IsBitSet(xcr0, 2)) {
       // Clear the AVX2/AVX3 bits if XMM/YMM XSAVE is not enabled
-- 
2.43.0


From 42b43cfa51e4787e2c2fc2b1ae18753443b8740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 13/44] fix: SupportedTargets must not enable disabled targets
 for dispatch

---
 hwy/targets.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index 0b40020..994d569 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -791,12 +791,15 @@ HWY_DLLEXPORT int64_t SupportedTargets() {
     // heterogeneous ISA (also requires some app support to pin threads). This
     // is only reached on the first HWY_DYNAMIC_DISPATCH or after each call to
     // DisableTargets or SetSupportedTargetsForTest.
-    targets = DetectTargets();
+    targets = DetectTargets() & supported_mask_;
+    if (targets == 0) targets = HWY_STATIC_TARGET;
 
     // VectorBytes invokes HWY_DYNAMIC_DISPATCH. To prevent infinite recursion,
-    // first set up ChosenTarget. No need to Update() again afterwards with the
-    // final targets - that will be done by a caller of this function.
+    // first set up ChosenTarget. This must not include targets disabled via
+    // DisableTargets because callers of this function are not required to
+    // Update() afterwards.
     GetChosenTarget().Update(targets);
+    return targets;
   }
 
   targets &= supported_mask_;
-- 
2.43.0


From 8ac40155343ad0c545b0f0b6bf665573486f7745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 14/44] fix: MakeUniqueAligned must not construct in null
 memory

---
 hwy/aligned_allocator.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index d2f4e84..31278b3 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -118,8 +118,10 @@ template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
                                                void* opaque, Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T), alloc, opaque));
-  return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
-                             AlignedDeleter(free, opaque));
+  if (ptr != nullptr) {
+    new (ptr) T(std::forward<Args>(args)...);
+  }
+  return AlignedUniquePtr<T>(ptr, AlignedDeleter(free, opaque));
 }
 
 // Similar to MakeUniqueAlignedWithAlloc but using the default alloc/free
@@ -127,8 +129,10 @@ AlignedUniquePtr<T> MakeUniqueAlignedWithAlloc(AllocPtr alloc, FreePtr free,
 template <typename T, typename... Args>
 AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   T* ptr = static_cast<T*>(AllocateAlignedBytes(sizeof(T)));
-  return AlignedUniquePtr<T>(new (ptr) T(std::forward<Args>(args)...),
-                             AlignedDeleter());
+  if (ptr != nullptr) {
+    new (ptr) T(std::forward<Args>(args)...);
+  }
+  return AlignedUniquePtr<T>(ptr, AlignedDeleter());
 }
 
 template <class T>
-- 
2.43.0


From 7a0b7441534a0a14fe36461a03b554f245b7cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 15/44] fix: AlignedAllocator::allocate must reject overflowing
 sizes

---
 hwy/aligned_allocator.h | 56 ++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index 31278b3..b01407b 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -135,6 +135,32 @@ AlignedUniquePtr<T> MakeUniqueAligned(Args&&... args) {
   return AlignedUniquePtr<T>(ptr, AlignedDeleter());
 }
 
+// Helpers for array allocators (avoids overflow)
+namespace detail {
+
+// Returns x such that 1u << x == n (if n is a power of two).
+static inline constexpr size_t ShiftCount(size_t n) {
+  return (n <= 1) ? 0 : 1 + ShiftCount(n / 2);
+}
+
+template <typename T>
+T* AllocateAlignedItems(size_t items, AllocPtr alloc_ptr, void* opaque_ptr) {
+  constexpr size_t kSize = sizeof(T);
+
+  constexpr bool kIsPow2 = (kSize & (kSize - 1)) == 0;
+  constexpr size_t kBits = ShiftCount(kSize);
+  static_assert(!kIsPow2 || (1ull << kBits) == kSize, "ShiftCount has a bug");
+
+  const size_t bytes = kIsPow2 ? items << kBits : items * kSize;
+  const size_t check = kIsPow2 ? bytes >> kBits : bytes / kSize;
+  if (check != items) {
+    return nullptr;  // overflowed
+  }
+  return static_cast<T*>(AllocateAlignedBytes(bytes, alloc_ptr, opaque_ptr));
+}
+
+}  // namespace detail
+
 template <class T>
 struct AlignedAllocator {
   using value_type = T;
@@ -150,8 +176,8 @@ struct AlignedAllocator {
                   "AlignedAllocator only supports integer types");
     static_assert(sizeof(V) <= sizeof(std::size_t),
                   "V n must be smaller or equal size_t to avoid overflow");
-    return static_cast<value_type*>(
-        AllocateAlignedBytes(static_cast<std::size_t>(n) * sizeof(value_type)));
+    return detail::AllocateAlignedItems<value_type>(
+        static_cast<std::size_t>(n), nullptr, nullptr);
   }
 
   template <class V>
@@ -175,32 +201,6 @@ constexpr bool operator!=(const AlignedAllocator<T>&,
 template <class T>
 using AlignedVector = std::vector<T, AlignedAllocator<T>>;
 
-// Helpers for array allocators (avoids overflow)
-namespace detail {
-
-// Returns x such that 1u << x == n (if n is a power of two).
-static inline constexpr size_t ShiftCount(size_t n) {
-  return (n <= 1) ? 0 : 1 + ShiftCount(n / 2);
-}
-
-template <typename T>
-T* AllocateAlignedItems(size_t items, AllocPtr alloc_ptr, void* opaque_ptr) {
-  constexpr size_t kSize = sizeof(T);
-
-  constexpr bool kIsPow2 = (kSize & (kSize - 1)) == 0;
-  constexpr size_t kBits = ShiftCount(kSize);
-  static_assert(!kIsPow2 || (1ull << kBits) == kSize, "ShiftCount has a bug");
-
-  const size_t bytes = kIsPow2 ? items << kBits : items * kSize;
-  const size_t check = kIsPow2 ? bytes >> kBits : bytes / kSize;
-  if (check != items) {
-    return nullptr;  // overflowed
-  }
-  return static_cast<T*>(AllocateAlignedBytes(bytes, alloc_ptr, opaque_ptr));
-}
-
-}  // namespace detail
-
 // Aligned memory equivalent of make_unique<T[]> for array types using the
 // custom allocators alloc/free. This function calls the constructor with the
 // passed Args... on every created item. The destructor of each element will be
-- 
2.43.0


From 9a3440efad29a034f6d572535f2152ac2fccba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 16/44] fix: MakeUniqueAlignedArray must pass the same
 arguments to every item

---
 hwy/aligned_allocator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/aligned_allocator.h b/hwy/aligned_allocator.h
index b01407b..993545a 100644
--- a/hwy/aligned_allocator.h
+++ b/hwy/aligned_allocator.h
@@ -211,7 +211,8 @@ AlignedUniquePtr<T[]> MakeUniqueAlignedArrayWithAlloc(
   T* ptr = detail::AllocateAlignedItems<T>(items, alloc, opaque);
   if (ptr != nullptr) {
     for (size_t i = 0; i < items; i++) {
-      new (ptr + i) T(std::forward<Args>(args)...);
+      // Do not forward: the first item must not consume the others' arguments.
+      new (ptr + i) T(args...);
     }
   }
   return AlignedUniquePtr<T[]>(ptr, AlignedDeleter(free, opaque));
-- 
2.43.0


From 2af76eb826316ef552f7b290141d0f58dd0fbe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 17/44] fix: ImageBase::BytesPerRow must avoid multiples of 2
 KiB

---
 hwy/contrib/image/image.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/image/image.cc b/hwy/contrib/image/image.cc
index 75f6528..2d26b61 100644
--- a/hwy/contrib/image/image.cc
+++ b/hwy/contrib/image/image.cc
@@ -53,7 +53,8 @@ size_t ImageBase::BytesPerRow(const size_t xsize, const size_t sizeof_t) {
   // only the lower 11 bits. We avoid a false dependency between writes to
   // consecutive rows by ensuring their sizes are not multiples of 2 KiB.
   // Avoid2K prevents the same problem for the planes of an Image3.
-  if (bytes_per_row % HWY_ALIGNMENT == 0) {
+  constexpr size_t kAlias = 2048;
+  if (bytes_per_row % kAlias == 0) {
     bytes_per_row += align;
   }
 
-- 
2.43.0


From 16db4ff4385ea10abcbadcc393d108fa4060a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 18/44] fix: Image3 row accessors must compile

---
 hwy/contrib/image/image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/image/image.h b/hwy/contrib/image/image.h
index 4f578aa..e127534 100644
--- a/hwy/contrib/image/image.h
+++ b/hwy/contrib/image/image.h
@@ -293,9 +293,9 @@ class Image3 {
     // Use the first plane's stride because the compiler might not realize they
     // are all equal. Thus we only need a single multiplication for all planes.
     const size_t row_offset = y * planes_[0].bytes_per_row();
-    const void* row = planes_[c].bytes() + row_offset;
-    return static_cast<const T * HWY_RESTRICT>(
-        HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT));
+    // Rows are mutable even if the bundle is const, see above.
+    void* row = const_cast<uint8_t*>(planes_[c].bytes()) + row_offset;
+    return HWY_ASSUME_ALIGNED(row, HWY_ALIGNMENT);
   }
 
  private:
-- 
2.43.0


From 12416c0a04556f9f750afd7bf2443710014ef8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 19/44] fix: HeapSort, HeapSelect and HeapPartialSort for zero
 keys and k == num

---
 hwy/contrib/sort/vqsort-inl.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 94cedd3..3d825b6 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -161,7 +161,7 @@ template <class Traits, typename T>
 void HeapSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes) {
   constexpr size_t N1 = st.LanesPerKey();
   HWY_DASSERT(num_lanes % N1 == 0);
-  if (num_lanes == N1) return;
+  if (num_lanes <= N1) return;
 
   // Build heap.
   for (size_t i = ((num_lanes - N1) / N1 / 2) * N1; i != (~N1 + 1); i -= N1) {
@@ -194,7 +194,7 @@ void HeapSelect(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
   constexpr size_t N1 = st.LanesPerKey();
   const size_t k = k_lanes + N1;
   HWY_DASSERT(num_lanes % N1 == 0);
-  if (num_lanes == N1) return;
+  if (num_lanes <= N1) return;
 
   const FixedTag<T, N1> d;
 
@@ -232,7 +232,10 @@ void HeapSelect(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
 template <class Traits, typename T>
 void HeapPartialSort(Traits st, T* HWY_RESTRICT lanes, const size_t num_lanes,
                      const size_t k_lanes) {
-  HeapSelect(st, lanes, num_lanes, k_lanes);
+  constexpr size_t N1 = st.LanesPerKey();
+  if (k_lanes == 0) return;
+  // The last of the first k keys also exists if k_lanes == num_lanes.
+  HeapSelect(st, lanes, num_lanes, k_lanes - N1);
   HeapSort(st, lanes, k_lanes);
 }
 
-- 
2.43.0


From 30f31054a42173ff1d1142696db2846ad3244279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 20/44] fix: PartialSort and Select must not lose keys if there
 are NaN

---
 hwy/contrib/sort/vqsort-inl.h | 65 ++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/hwy/contrib/sort/vqsort-inl.h b/hwy/contrib/sort/vqsort-inl.h
index 3d825b6..794f90e 100644
--- a/hwy/contrib/sort/vqsort-inl.h
+++ b/hwy/contrib/sort/vqsort-inl.h
@@ -1953,6 +1953,36 @@ HWY_INLINE size_t CountAndReplaceNaN(D, Traits, T* HWY_RESTRICT, size_t) {
   return 0;
 }
 
+// Moves any NaN to the back, replaced with the canonical NaN, and returns the
+// number of other keys. Unlike replacing them with a sentinel, this is also
+// valid if the back of the array will not be sorted.
+template <class D, typename T, HWY_IF_FLOAT(T)>
+HWY_INLINE size_t MoveNaNToBack(D d, T* HWY_RESTRICT keys, size_t num) {
+  const size_t N = Lanes(d);
+  size_t i = 0;
+  // Skip up to the first vector with a NaN; usually there are none.
+  for (; num - i >= N; i += N) {
+    if (!AllFalse(d, IsNaN(LoadU(d, keys + i)))) break;
+  }
+  size_t num_valid = num;
+  while (i < num_valid) {
+    if (ScalarIsNaN(keys[i])) {
+      keys[i] = keys[--num_valid];
+    } else {
+      ++i;
+    }
+  }
+  if (num_valid != num) {
+    Fill(d, GetLane(NaN(d)), num - num_valid, keys + num_valid);
+  }
+  return num_valid;
+}
+
+template <class D, typename T, HWY_IF_NOT_FLOAT(T)>
+HWY_INLINE size_t MoveNaNToBack(D, T* HWY_RESTRICT, size_t num) {
+  return num;
+}
+
 }  // namespace detail
 
 // Old interface with user-specified buffer, retained for compatibility. Called
@@ -2015,19 +2045,20 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
   }
 #endif  // HWY_MAX_BYTES > 64
 
-  const size_t num_nan = detail::CountAndReplaceNaN(d, st, keys, num);
+  const size_t num_valid = detail::MoveNaNToBack(d, keys, num);
+  const size_t k_valid = HWY_MIN(k, num_valid);
 
 #if VQSORT_ENABLED || HWY_IDE
-  if (!detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
+  if (!detail::HandleSpecialCases(d, st, keys, num_valid, buf)) {  // TODO
     uint64_t* HWY_RESTRICT state = hwy::detail::GetGeneratorStateStatic();
     // Introspection: switch to worst-case N*logN heapsort after this many.
     // Should never be reached, so computing log2 exactly does not help.
     const size_t max_levels = 50;
     // TODO: optimize to use kLooseSelect
-    detail::Recurse<detail::RecurseMode::kSelect>(d, st, keys, num, buf, state,
-                                                  max_levels, k);
-    detail::Recurse<detail::RecurseMode::kSort>(d, st, keys, k, buf, state,
-                                                max_levels);
+    detail::Recurse<detail::RecurseMode::kSelect>(
+        d, st, keys, num_valid, buf, state, max_levels, k_valid);
+    detail::Recurse<detail::RecurseMode::kSort>(d, st, keys, k_valid, buf,
+                                                state, max_levels);
   }
 #else   // !VQSORT_ENABLED
   (void)d;
@@ -2035,12 +2066,8 @@ void PartialSort(D d, Traits st, T* HWY_RESTRICT keys, size_t num, size_t k,
   if (VQSORT_PRINT >= 1) {
     HWY_WARN("using slow HeapSort because vqsort disabled\n");
   }
-  detail::HeapPartialSort(st, keys, num, k);
+  detail::HeapPartialSort(st, keys, num_valid, k_valid);
 #endif  // VQSORT_ENABLED
-
-  if (num_nan != 0) {
-    Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
-  }
 }
 
 template <class D, class Traits, typename T>
@@ -2059,16 +2086,18 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
   }
 #endif  // HWY_MAX_BYTES > 64
 
-  const size_t num_nan = detail::CountAndReplaceNaN(d, st, keys, num);
+  const size_t num_valid = detail::MoveNaNToBack(d, keys, num);
+  // The NaN are already in place.
+  if (k >= num_valid) return;
 
 #if VQSORT_ENABLED || HWY_IDE
-  if (!detail::HandleSpecialCases(d, st, keys, num, buf)) {  // TODO
+  if (!detail::HandleSpecialCases(d, st, keys, num_valid, buf)) {  // TODO
     uint64_t* HWY_RESTRICT state = hwy::detail::GetGeneratorStateStatic();
     // Introspection: switch to worst-case N*logN heapsort after this many.
     // Should never be reached, so computing log2 exactly does not help.
     const size_t max_levels = 50;
-    detail::Recurse<detail::RecurseMode::kSelect>(d, st, keys, num, buf, state,
-                                                  max_levels, k);
+    detail::Recurse<detail::RecurseMode::kSelect>(
+        d, st, keys, num_valid, buf, state, max_levels, k);
   }
 #else   // !VQSORT_ENABLED
   (void)d;
@@ -2076,12 +2105,8 @@ void Select(D d, Traits st, T* HWY_RESTRICT keys, const size_t num,
   if (VQSORT_PRINT >= 1) {
     HWY_WARN("using slow HeapSort because vqsort disabled\n");
   }
-  detail::HeapSelect(st, keys, num, k);
+  detail::HeapSelect(st, keys, num_valid, k);
 #endif  // VQSORT_ENABLED
-
-  if (num_nan != 0) {
-    Fill(d, GetLane(NaN(d)), num_nan, keys + num - num_nan);
-  }
 }
 
 // Sorts `keys[0..num-1]` according to the order defined by `st.Compare`.
-- 
2.43.0


From 9074dc784a4518300a2c48bb01e8ddc3b423008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 21/44] fix: Pack16<11> must not mix bits of other values into
 the last one

---
 hwy/contrib/bit_pack/bit_pack-inl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 09d37ac..6dbd4f8 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -1898,10 +1898,11 @@ struct Pack16<11> {
     const VU16 rawD = OrAnd(downD, ShiftRight<4>(packed9), hi3);
     const VU16 rawE = OrAnd(downE, ShiftRight<4>(packedA), hi3);
 
-    // Shift MSB into the top 3-of-11 and mask.
-    const VU16 rawF = Or(downF, Xor3(And(ShiftRight<7>(packed8), hi3),
-                                     And(ShiftRight<6>(packed9), hi3),
-                                     And(ShiftRight<5>(packedA), hi3)));
+    // Shift MSB into the top 3-of-11 and mask the other bits.
+    const VU16 rawF =
+        Or(downF, Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                       And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                       And(ShiftRight<5>(packedA), Set(d, 0x400u))));
 
     StoreU(raw0, d, raw + 0 * N);
     StoreU(raw1, d, raw + 1 * N);
-- 
2.43.0


From 9ad9003489dedc6f20b473cc98a9313647b5f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 22/44] fix: Pack16<13> must restore the upper bits of all
 values

---
 hwy/contrib/bit_pack/bit_pack-inl.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hwy/contrib/bit_pack/bit_pack-inl.h b/hwy/contrib/bit_pack/bit_pack-inl.h
index 6dbd4f8..b4aa690 100644
--- a/hwy/contrib/bit_pack/bit_pack-inl.h
+++ b/hwy/contrib/bit_pack/bit_pack-inl.h
@@ -2121,7 +2121,7 @@ struct Pack16<13> {
     packedC = OrAnd(packedC, ShiftLeft<2>(rawE), next);
 
     // Scatter upper 5 bits of rawF into the upper bits.
-    next = ShiftLeft<3>(next);  // = 0x8000u
+    next = ShiftLeft<5>(next);  // = 0x8000u
     packed8 = OrAnd(packed8, ShiftLeft<7>(rawF), next);
     packed9 = OrAnd(packed9, ShiftLeft<6>(rawF), next);
     packedA = OrAnd(packedA, ShiftLeft<5>(rawF), next);
@@ -2185,21 +2185,21 @@ struct Pack16<13> {
     const VU16 raw5 = OrAnd(down5, ShiftLeft<3>(packed8), hi5);
     const VU16 raw6 = OrAnd(down6, ShiftLeft<3>(packed9), hi5);
     const VU16 raw7 = OrAnd(down7, ShiftLeft<3>(packedA), hi5);
-    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packed9), hi5);
-    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedA), hi5);
+    const VU16 raw8 = OrAnd(down8, ShiftLeft<3>(packedB), hi5);
+    const VU16 raw9 = OrAnd(down9, ShiftLeft<3>(packedC), hi5);
 
     const VU16 rawA = OrAnd(downA, ShiftRight<2>(packed8), hi5);
     const VU16 rawB = OrAnd(downB, ShiftRight<2>(packed9), hi5);
     const VU16 rawC = OrAnd(downC, ShiftRight<2>(packedA), hi5);
-    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packed9), hi5);
-    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedA), hi5);
-
-    // Shift MSB into the top 5-of-11 and mask.
-    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), hi5),  //
-                         And(ShiftRight<6>(packed9), hi5),
-                         And(ShiftRight<5>(packedA), hi5));
-    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), hi5),
-                         And(ShiftRight<3>(packedC), hi5), downF);
+    const VU16 rawD = OrAnd(downD, ShiftRight<2>(packedB), hi5);
+    const VU16 rawE = OrAnd(downE, ShiftRight<2>(packedC), hi5);
+
+    // Shift MSB into the top 5-of-13 and mask the other bits.
+    const VU16 p0 = Xor3(And(ShiftRight<7>(packed8), Set(d, 0x100u)),
+                         And(ShiftRight<6>(packed9), Set(d, 0x200u)),
+                         And(ShiftRight<5>(packedA), Set(d, 0x400u)));
+    const VU16 p1 = Xor3(And(ShiftRight<4>(packedB), Set(d, 0x800u)),
+                         And(ShiftRight<3>(packedC), Set(d, 0x1000u)), downF);
     const VU16 rawF = Or(p0, p1);
 
     StoreU(raw0, d, raw + 0 * N);
-- 
2.43.0


From 30173c7b24464aac584eb28cc57bbba13bfb4c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 23/44] fix: MatVecAdd of double must not round to float

---
 hwy/contrib/matvec/matvec-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwy/contrib/matvec/matvec-inl.h b/hwy/contrib/matvec/matvec-inl.h
index a858c9f..b4cf466 100644
--- a/hwy/contrib/matvec/matvec-inl.h
+++ b/hwy/contrib/matvec/matvec-inl.h
@@ -37,6 +37,8 @@ TA AddScalar(TA a, TB b) {
   return ConvertScalarTo<TA>(ConvertScalarTo<float>(a) +
                              ConvertScalarTo<float>(b));
 }
+// Avoid rounding to float.
+HWY_INLINE double AddScalar(double a, double b) { return a + b; }
 
 template <size_t kOuter, size_t kInner, typename T, bool kAdd>
 HWY_NOINLINE void MatVecAddImpl(const T* HWY_RESTRICT mat,
-- 
2.43.0


From 3f16da1f4039aea8b2a4105ee75e3b051481c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:43 +0000
Subject: [PATCH 24/44] fix: PromoteTo of f16 without F16C must preserve
 infinity and NaN

---
 hwy/ops/generic_ops-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index f6487dc..6b489c5 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -3252,7 +3252,10 @@ HWY_API VFromD<D> PromoteTo(D df32, VFromD<Rebind<float16_t, D>> v) {
       BitCast(du32, Mul(ConvertTo(df32, BitCast(di32, mantissa)),
                         Set(df32, 1.0f / 16384 / 1024)));
 
-  const VU32 biased_exp32 = Add(biased_exp, Set(du32, 127 - 15));
+  // Infinity and NaN have the maximum biased exponent in both representations.
+  const VU32 biased_exp32 =
+      IfThenElse(Eq(biased_exp, Set(du32, 0x1F)), Set(du32, 0xFF),
+                 Add(biased_exp, Set(du32, 127 - 15)));
   const VU32 mantissa32 = ShiftLeft<23 - 10>(mantissa);
   const VU32 normal = Or(ShiftLeft<23>(biased_exp32), mantissa32);
   const VU32 bits32 = IfThenElse(Eq(biased_exp, Zero(du32)), subnormal, normal);
-- 
2.43.0


From 214e8a03c6a24bd55ac3c891f548bdf2097769cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 25/44] fix: NearestInt on EMU128 and SCALAR must saturate 2^31
 and 2^63

---
 hwy/ops/emu128-inl.h | 5 +++--
 hwy/ops/scalar-inl.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index f601207..a603f7a 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1064,8 +1064,9 @@ HWY_API Vec128<MakeSigned<T>, N> NearestInt(Vec128<T, N> v) {
     const bool signbit = ScalarSignBit(v.raw[i]);
 
     if (!(abs.raw[i] < MantissaEnd<T>())) {  // Huge or NaN
-      // Check if too large to cast or NaN
-      if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+      // Check if too large to cast or NaN. `LimitsMax` may round up to the
+      // first value that is too large.
+      if (!(abs.raw[i] < ConvertScalarTo<T>(LimitsMax<TI>()))) {
         ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
         continue;
       }
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 2a707a0..2bd696b 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -857,8 +857,9 @@ HWY_API Vec1<MakeSigned<T>> NearestInt(const Vec1<T> v) {
   const bool is_sign = ScalarSignBit(v.raw);
 
   if (!(abs < MantissaEnd<T>())) {  // Huge or NaN
-    // Check if too large to cast or NaN
-    if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    // Check if too large to cast or NaN. `LimitsMax` may round up to the first
+    // value that is too large.
+    if (!(abs < ConvertScalarTo<T>(LimitsMax<TI>()))) {
       return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
     }
     return Vec1<TI>(ConvertScalarTo<TI>(v.raw));
-- 
2.43.0


From a92767ac09f1ebf05493d0cb84cacdb8e86c97e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 26/44] fix: DemoteToNearestInt on EMU128 and SCALAR saturated
 values that are in range

---
 hwy/ops/emu128-inl.h | 4 ++--
 hwy/ops/scalar-inl.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index a603f7a..c3583f9 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1100,13 +1100,13 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/,
 
   constexpr size_t N = HWY_MAX_LANES_D(DI32);
 
-  const VFromD<Rebind<double, DI32>> abs = Abs(v);
   VFromD<DI32> ret;
   for (size_t i = 0; i < N; ++i) {
     const bool signbit = ScalarSignBit(v.raw[i]);
 
     // Check if too large to cast or NaN
-    if (!(abs.raw[i] <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+    if (!(v.raw[i] > ConvertScalarTo<T>(LimitsMin<TI>()) &&
+          v.raw[i] < ConvertScalarTo<T>(LimitsMax<TI>()))) {
       ret.raw[i] = signbit ? LimitsMin<TI>() : LimitsMax<TI>();
       continue;
     }
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 2bd696b..53e9033 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -883,11 +883,11 @@ HWY_API VFromD<DI32> DemoteToNearestInt(DI32 /*di32*/, const Vec1<double> v) {
   using T = double;
   using TI = int32_t;
 
-  const T abs = Abs(v).raw;
   const bool is_sign = ScalarSignBit(v.raw);
 
   // Check if too large to cast or NaN
-  if (!(abs <= ConvertScalarTo<T>(LimitsMax<TI>()))) {
+  if (!(v.raw > ConvertScalarTo<T>(LimitsMin<TI>()) &&
+        v.raw < ConvertScalarTo<T>(LimitsMax<TI>()))) {
     return Vec1<TI>(is_sign ? LimitsMin<TI>() : LimitsMax<TI>());
   }
 
-- 
2.43.0


From 15c801821e0d5d3a8f9d14e718625f5816aa40ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 27/44] fix: NearestInt of double must not return zero for
 values just below 2^52

---
 hwy/ops/x86_128-inl.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 2040b97..54dccc4 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -11934,14 +11934,21 @@ static HWY_INLINE VFromD<DI64> SSE2NearestI64InRange(
           Set(di64, int64_t{0x7FF}));
 
   // We can simply subtract 1075 from adj_v_biased_exp[i] to get shift_int since
-  // adj_v_biased_exp[i] is at least 1075
-  const VI64 shift_int = adj_v_biased_exp + Set(di64, int64_t{-1075});
+  // adj_v_biased_exp[i] is at least 1075. If is_small[i], there is no shift:
+  // its exponent is usually 1075, or 1076 if |v[i]| was rounded up to 2^52.
+  const VI64 shift_int =
+      IfThenZeroElse(RebindMask(di64, is_small),
+                     adj_v_biased_exp + Set(di64, int64_t{-1075}));
 
   const VI64 mantissa = BitCast(di64, adj_v) & Set(di64, (1LL << 52) - 1);
-  // Include implicit 1-bit if is_small[i] is 0. NOTE: the shift count may
-  // exceed 63; we rely on x86 returning zero in that case.
-  const VI64 int53 = mantissa | IfThenZeroElse(RebindMask(di64, is_small),
-                                               Set(di64, 1LL << 52));
+  // Include implicit 1-bit if adj_v_biased_exp[i] is not 1075 (also for the
+  // is_small[i] that were rounded up to 2^52) or if is_small[i] is 0. NOTE: the
+  // shift count may exceed 63; we rely on x86 returning zero in that case.
+  const auto no_implicit =
+      And(RebindMask(di64, is_small),
+          Eq(adj_v_biased_exp, Set(di64, int64_t{1075})));
+  const VI64 int53 =
+      mantissa | IfThenZeroElse(no_implicit, Set(di64, 1LL << 52));
 
   const VI64 sign_mask = BroadcastSignBit(BitCast(di64, v));
   // If the input was negative, negate the integer (two's complement).
-- 
2.43.0


From 0dfc914c52caae28bba3137be8c079f8f448c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 28/44] fix: Div of floats by zero on EMU128 must return
 infinity or NaN, not zero

---
 hwy/ops/emu128-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index c3583f9..3e52022 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -848,7 +848,7 @@ HWY_API Vec128<T, N> operator*(Vec128<T, N> a, Vec128<T, N> b) {
 template <typename T, size_t N, HWY_IF_FLOAT(T)>
 HWY_API Vec128<T, N> operator/(Vec128<T, N> a, Vec128<T, N> b) {
   for (size_t i = 0; i < N; ++i) {
-    a.raw[i] = (b.raw[i] == T{0}) ? 0 : a.raw[i] / b.raw[i];
+    a.raw[i] = a.raw[i] / b.raw[i];
   }
   return a;
 }
-- 
2.43.0


From c1b91dca79620f1f3e4bf20283abeecf6d362611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:15 +0000
Subject: [PATCH 29/44] fix: Round, Trunc, Ceil and Floor must preserve the
 sign of zero on all targets

---
 hwy/ops/emu128-inl.h  | 11 ++++++-----
 hwy/ops/scalar-inl.h  |  6 +++---
 hwy/ops/x86_128-inl.h |  9 ++++++---
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/emu128-inl.h b/hwy/ops/emu128-inl.h
index 3e52022..0d90f33 100644
--- a/hwy/ops/emu128-inl.h
+++ b/hwy/ops/emu128-inl.h
@@ -1037,14 +1037,15 @@ HWY_API Vec128<T, N> Round(Vec128<T, N> v) {
     const T bias = ConvertScalarTo<T>(v.raw[i] < k0 ? -0.5 : 0.5);
     const TI rounded = ConvertScalarTo<TI>(v.raw[i] + bias);
     if (rounded == 0) {
-      v.raw[i] = v.raw[i] < 0 ? ConvertScalarTo<T>(-0) : k0;
+      v.raw[i] = ScalarCopySign(k0, v.raw[i]);
       continue;
     }
     const T rounded_f = ConvertScalarTo<T>(rounded);
     // Round to even
     if ((rounded & 1) &&
         ScalarAbs(rounded_f - v.raw[i]) == ConvertScalarTo<T>(0.5)) {
-      v.raw[i] = ConvertScalarTo<T>(rounded - (v.raw[i] < k0 ? -1 : 1));
+      v.raw[i] = ScalarCopySign(
+          ConvertScalarTo<T>(rounded - (v.raw[i] < k0 ? -1 : 1)), v.raw[i]);
       continue;
     }
     v.raw[i] = rounded_f;
@@ -1139,7 +1140,7 @@ HWY_API Vec128<T, N> Trunc(Vec128<T, N> v) {
     }
     const TI truncated = static_cast<TI>(v.raw[i]);
     if (truncated == 0) {
-      v.raw[i] = v.raw[i] < 0 ? -T{0} : T{0};
+      v.raw[i] = ScalarCopySign(T{0}, v.raw[i]);
       continue;
     }
     v.raw[i] = static_cast<T>(truncated);
@@ -1167,7 +1168,7 @@ Vec128<Float, N> Ceil(Vec128<Float, N> v) {
     if (exponent >= kMantissaBits) continue;
     // |v| <= 1 => 0 or 1.
     if (exponent < 0) {
-      v.raw[i] = positive ? Float{1} : Float{-0.0};
+      v.raw[i] = positive ? Float{1} : ScalarCopySign(Float{0}, v.raw[i]);
       continue;
     }
 
@@ -1204,7 +1205,7 @@ Vec128<Float, N> Floor(Vec128<Float, N> v) {
     if (exponent >= kMantissaBits) continue;
     // |v| <= 1 => -1 or 0.
     if (exponent < 0) {
-      v.raw[i] = negative ? Float(-1.0) : Float(0.0);
+      v.raw[i] = negative ? Float{-1} : ScalarCopySign(Float{0}, v.raw[i]);
       continue;
     }
 
diff --git a/hwy/ops/scalar-inl.h b/hwy/ops/scalar-inl.h
index 53e9033..fafda7a 100644
--- a/hwy/ops/scalar-inl.h
+++ b/hwy/ops/scalar-inl.h
@@ -845,7 +845,7 @@ HWY_API Vec1<T> Round(const Vec1<T> v) {
                            ConvertScalarTo<T>(0.5)) {
     offset = v.raw < k0 ? -1 : 1;
   }
-  return Vec1<T>(ConvertScalarTo<T>(rounded - offset));
+  return CopySign(Vec1<T>(ConvertScalarTo<T>(rounded - offset)), v);
 }
 
 // Round-to-nearest even.
@@ -933,7 +933,7 @@ V Ceiling(const V v) {
   // Already an integer.
   if (exponent >= kMantissaBits) return v;
   // |v| <= 1 => 0 or 1.
-  if (exponent < 0) return positive ? V(1) : V(-0.0);
+  if (exponent < 0) return positive ? V(1) : CopySignToAbs(V(0), v);
 
   const Bits mantissa_mask = kMantissaMask >> exponent;
   // Already an integer
@@ -965,7 +965,7 @@ V Floor(const V v) {
   // Already an integer.
   if (exponent >= kMantissaBits) return v;
   // |v| <= 1 => -1 or 0.
-  if (exponent < 0) return V(negative ? Float(-1.0) : Float(0.0));
+  if (exponent < 0) return negative ? V(-1) : CopySignToAbs(V(0), v);
 
   const Bits mantissa_mask = kMantissaMask >> exponent;
   // Already an integer
diff --git a/hwy/ops/x86_128-inl.h b/hwy/ops/x86_128-inl.h
index 54dccc4..54ca7be 100644
--- a/hwy/ops/x86_128-inl.h
+++ b/hwy/ops/x86_128-inl.h
@@ -12063,7 +12063,8 @@ HWY_API Vec128<T, N> Round(const Vec128<T, N> v) {
   const auto max = Set(df, MantissaEnd<T>());
   const auto large = CopySignToAbs(max, v);
   const auto added = large + v;
-  const auto rounded = added - large;
+  // Preserve the sign, also if rounded to zero.
+  const auto rounded = CopySign(added - large, v);
   // Keep original if NaN or the magnitude is large (already an int).
   return IfThenElse(Abs(v) < max, rounded, v);
 }
@@ -12108,7 +12109,8 @@ HWY_API Vec128<T, N> Ceil(const Vec128<T, N> v) {
   // Truncating a positive non-integer ends up smaller; if so, add 1.
   const auto neg1 = ConvertTo(df, VecFromMask(di, RebindMask(di, int_f < v)));
 
-  return IfThenElse(detail::UseInt(v), int_f - neg1, v);
+  // Preserve the sign, also if rounded to zero.
+  return IfThenElse(detail::UseInt(v), CopySign(int_f - neg1, v), v);
 }
 
 #ifdef HWY_NATIVE_CEIL_FLOOR_INT
@@ -12143,7 +12145,8 @@ HWY_API Vec128<T, N> Floor(const Vec128<T, N> v) {
   // Truncating a negative non-integer ends up larger; if so, subtract 1.
   const auto neg1 = ConvertTo(df, VecFromMask(di, RebindMask(di, int_f > v)));
 
-  return IfThenElse(detail::UseInt(v), int_f + neg1, v);
+  // Preserve the sign, also of zero.
+  return IfThenElse(detail::UseInt(v), CopySign(int_f + neg1, v), v);
 }
 
 template <class V, HWY_IF_FLOAT_V(V)>
-- 
2.43.0


From 90dde49ac25dbcf90ceb26892a0be08843678aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:10 +0000
Subject: [PATCH 30/44] fix: CLMulLower/CLMulUpper without hardware support
 must not carry between bit groups

---
 hwy/ops/generic_ops-inl.h | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/hwy/ops/generic_ops-inl.h b/hwy/ops/generic_ops-inl.h
index 6b489c5..9cf3233 100644
--- a/hwy/ops/generic_ops-inl.h
+++ b/hwy/ops/generic_ops-inl.h
@@ -4284,7 +4284,9 @@ HWY_API V AESKeyGenAssist(V v) {
 
 // Constant-time implementation inspired by
 // https://www.bearssl.org/constanttime.html, but about half the cost because we
-// use 64x64 multiplies and 128-bit XORs.
+// use 64x64 multiplies and 128-bit XORs. The sums of partial products must not
+// carry out of their 4-bit groups, which 16 terms would. Hence we handle the
+// uppermost group of `b` separately, one bit at a time.
 template <class V>
 HWY_API V CLMulLower(V a, V b) {
   const DFromV<V> d;
@@ -4297,10 +4299,11 @@ HWY_API V CLMulLower(V a, V b) {
   const auto a1 = And(a, k2);
   const auto a2 = And(a, k4);
   const auto a3 = And(a, k8);
-  const auto b0 = And(b, k1);
-  const auto b1 = And(b, k2);
-  const auto b2 = And(b, k4);
-  const auto b3 = And(b, k8);
+  const auto bl = And(b, Set(d, 0x0FFFFFFFFFFFFFFFULL));
+  const auto b0 = And(bl, k1);
+  const auto b1 = And(bl, k2);
+  const auto b2 = And(bl, k4);
+  const auto b3 = And(bl, k8);
 
   auto m0 = Xor(MulEven(a0, b0), MulEven(a1, b3));
   auto m1 = Xor(MulEven(a0, b1), MulEven(a1, b0));
@@ -4310,7 +4313,13 @@ HWY_API V CLMulLower(V a, V b) {
   m1 = Xor(m1, Xor(MulEven(a2, b3), MulEven(a3, b2)));
   m2 = Xor(m2, Xor(MulEven(a2, b0), MulEven(a3, b3)));
   m3 = Xor(m3, Xor(MulEven(a2, b1), MulEven(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  const auto t0 = MulEven(a, And(b, Set(d, 0x1000000000000000ULL)));
+  const auto t1 = MulEven(a, And(b, Set(d, 0x2000000000000000ULL)));
+  const auto t2 = MulEven(a, And(b, Set(d, 0x4000000000000000ULL)));
+  const auto t3 = MulEven(a, And(b, Set(d, 0x8000000000000000ULL)));
+  const auto top = Xor(Xor(t0, t1), Xor(t2, t3));
+  return Xor(top,
+             Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8))));
 }
 
 template <class V>
@@ -4325,10 +4334,11 @@ HWY_API V CLMulUpper(V a, V b) {
   const auto a1 = And(a, k2);
   const auto a2 = And(a, k4);
   const auto a3 = And(a, k8);
-  const auto b0 = And(b, k1);
-  const auto b1 = And(b, k2);
-  const auto b2 = And(b, k4);
-  const auto b3 = And(b, k8);
+  const auto bl = And(b, Set(d, 0x0FFFFFFFFFFFFFFFULL));
+  const auto b0 = And(bl, k1);
+  const auto b1 = And(bl, k2);
+  const auto b2 = And(bl, k4);
+  const auto b3 = And(bl, k8);
 
   auto m0 = Xor(MulOdd(a0, b0), MulOdd(a1, b3));
   auto m1 = Xor(MulOdd(a0, b1), MulOdd(a1, b0));
@@ -4338,7 +4348,13 @@ HWY_API V CLMulUpper(V a, V b) {
   m1 = Xor(m1, Xor(MulOdd(a2, b3), MulOdd(a3, b2)));
   m2 = Xor(m2, Xor(MulOdd(a2, b0), MulOdd(a3, b3)));
   m3 = Xor(m3, Xor(MulOdd(a2, b1), MulOdd(a3, b0)));
-  return Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8)));
+  const auto t0 = MulOdd(a, And(b, Set(d, 0x1000000000000000ULL)));
+  const auto t1 = MulOdd(a, And(b, Set(d, 0x2000000000000000ULL)));
+  const auto t2 = MulOdd(a, And(b, Set(d, 0x4000000000000000ULL)));
+  const auto t3 = MulOdd(a, And(b, Set(d, 0x8000000000000000ULL)));
+  const auto top = Xor(Xor(t0, t1), Xor(t2, t3));
+  return Xor(top,
+             Or(Or(And(m0, k1), And(m1, k2)), Or(And(m2, k4), And(m3, k8))));
 }
 
 #endif  // HWY_NATIVE_AES
-- 
2.43.0


From 7c7f0b6adae1def09f9198862532a6128f77bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 31/44] fix: GetThreadAffinity must not keep bits that were
 already set in its argument

---
 hwy/contrib/thread_pool/topology.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index e01bb7c..1403d88 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -326,6 +326,7 @@ HWY_CONTRIB_DLLEXPORT bool GetThreadAffinity(LogicalProcessorSet& lps) {
   CPU_ZERO(&set);
   const int err = GetAffinity(&set);
   if (err != 0) return false;
+  lps = LogicalProcessorSet();  // clear all
   for (size_t lp = 0; lp < kMaxLogicalProcessors; ++lp) {
     if (IsSet(lp, &set)) lps.Set(lp);
   }
-- 
2.43.0


From cfa3cf4b3a64f8662dbd3c851c3431f4ad982cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 32/44] fix: topology detection must accept sysfs identifiers
 of ten or more digits

---
 hwy/contrib/thread_pool/topology.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 1403d88..3bf970b 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -438,8 +438,8 @@ size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
 // is found, or at end. Returns false if no digits found.
 bool ParseDigits(const char* str, const size_t end, size_t& pos, size_t* out) {
   HWY_ASSERT(pos <= end);
-  // 9 digits cannot overflow even 32-bit size_t.
-  const size_t stop = pos + 9;
+  // 9 digits cannot overflow even 32-bit size_t, nor can 19 overflow 64-bit.
+  const size_t stop = pos + (sizeof(size_t) >= 8 ? 19 : 9);
   *out = 0;
   for (; pos < HWY_MIN(end, stop); ++pos) {
     const int c = str[pos];
-- 
2.43.0


From 2239ace0c0d77c6fa2ad756a872e4472c93cbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 33/44] fix: topology detection must tolerate empty cpulists
 and processors beyond TotalLogicalProcessors

---
 hwy/contrib/thread_pool/topology.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index 3bf970b..c96d60f 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -583,20 +583,26 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
 
   // Reads LP number and advances `pos`. `end` is for verifying we did not
   // read past a known terminator, or the end of string.
-  const auto parse_lp = [list, list_end, &pos, max_lp](size_t end) -> size_t {
+  const auto parse_lp = [list, list_end, &pos](size_t end) -> size_t {
     end = HWY_MIN(end, list_end);
     size_t lp;
     HWY_ASSERT(ParseDigits(list, end, pos, &lp));
-    HWY_IF_CONSTEXPR(HWY_ARCH_RISCV) {
-      // On RISC-V, both TotalLogicalProcessors and GetThreadAffinity may
-      // under-report the count, hence clamp.
-      lp = HWY_MIN(lp, max_lp);
-    }
-    HWY_ASSERT(lp <= max_lp);
     HWY_ASSERT(pos <= end);
     return lp;
   };
 
+  // The list is empty, for example for NUMA nodes with memory but no LPs.
+  if (list_end == 0 || list[0] == '\0' || list[0] == '\n') return expanded;
+
+  // Appends all LP in the range, but skips those above `max_lp`: sysfs may list
+  // more than `TotalLogicalProcessors`, which is clamped to
+  // `kMaxLogicalProcessors`, and under-reported on RISC-V and in containers.
+  const auto append = [&expanded, max_lp](size_t first, size_t last) {
+    for (size_t lp = first; lp <= HWY_MIN(last, max_lp); ++lp) {
+      expanded.push_back(lp);
+    }
+  };
+
   // Parse all [first-]last separated by commas.
   for (;;) {
     // Single number or first of range: ends with dash, comma, or end.
@@ -606,13 +612,9 @@ std::vector<size_t> ExpandList(const char* list, size_t list_end,
       ++pos;                 // skip dash
       // Last of range ends with comma or end.
       const size_t lp_range_last = parse_lp(find(','));
-
-      expanded.reserve(expanded.size() + lp_range_last - lp_range_first + 1);
-      for (size_t lp = lp_range_first; lp <= lp_range_last; ++lp) {
-        expanded.push_back(lp);
-      }
+      append(lp_range_first, lp_range_last);
     } else {  // single number
-      expanded.push_back(lp_range_first);
+      append(lp_range_first, lp_range_first);
     }
 
     // Done if reached end of string.
-- 
2.43.0


From b63c64f41c938b560c7cef117c955e497591ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:39 +0000
Subject: [PATCH 34/44] fix: topology detection overran its buffer for sysfs
 files of 200 or more bytes

---
 hwy/contrib/thread_pool/topology.cc | 35 ++++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/hwy/contrib/thread_pool/topology.cc b/hwy/contrib/thread_pool/topology.cc
index c96d60f..b129168 100644
--- a/hwy/contrib/thread_pool/topology.cc
+++ b/hwy/contrib/thread_pool/topology.cc
@@ -367,6 +367,9 @@ struct PackageSizes {
 
 #if HWY_OS_LINUX
 
+// Upper bound on the size of sysfs attributes (one page), plus null terminator.
+constexpr size_t kMaxSysfs = 4096 + 1;
+
 class File {
  public:
   explicit File(const char* path) {
@@ -397,14 +400,14 @@ class File {
   }
 
   // Returns number of bytes read or 0 on failure.
-  size_t Read(char* buf200) const {
+  size_t Read(char (&buf)[kMaxSysfs]) const {
     if (fd_ < 0) return 0;
     size_t pos = 0;
     for (;;) {
       // read instead of `pread`, which might not work for sysfs.
-      const auto bytes_read = read(fd_, buf200 + pos, 200 - pos);
+      const auto bytes_read = read(fd_, buf + pos, kMaxSysfs - 1 - pos);
       if (bytes_read == 0) {  // EOF: done
-        buf200[pos++] = '\0';
+        buf[pos++] = '\0';
         return pos;
       }
       if (bytes_read == -1) {
@@ -415,7 +418,7 @@ class File {
         return 0;
       }
       pos += static_cast<size_t>(bytes_read);
-      HWY_ASSERT(pos <= 200);
+      HWY_ASSERT(pos < kMaxSysfs);
     }
   }
 
@@ -424,14 +427,14 @@ class File {
 };
 
 // Returns bytes read, or 0 on failure.
-size_t ReadSysfs(const char* format, size_t lp, char* buf200) {
+size_t ReadSysfs(const char* format, size_t lp, char (&buf)[kMaxSysfs]) {
   char path[200];
   const int bytes_written = snprintf(path, sizeof(path), format, lp);
   HWY_ASSERT(0 < bytes_written &&
              bytes_written < static_cast<int>(sizeof(path) - 1));
 
   const File file(path);
-  return file.Read(buf200);
+  return file.Read(buf);
 }
 
 // Interprets [str + pos, str + end) as base-10 ASCII. Stops when any non-digit
@@ -473,10 +476,10 @@ bool ParseNumberWithOptionalSuffix(const char* str, size_t len, size_t* out) {
 }
 
 bool ReadNumberWithOptionalSuffix(const char* format, size_t lp, size_t* out) {
-  char buf200[200];
-  const size_t pos = ReadSysfs(format, lp, buf200);
+  char buf[kMaxSysfs];
+  const size_t pos = ReadSysfs(format, lp, buf);
   if (pos == 0) return false;
-  return ParseNumberWithOptionalSuffix(buf200, pos, out);
+  return ParseNumberWithOptionalSuffix(buf, pos, out);
 }
 
 const char* kPackage =
@@ -637,11 +640,11 @@ void SetNodes(std::vector<Topology::LP>& lps) {
   // For each NUMA node found via sysfs:
   for (size_t node = 0;; node++) {
     // Read its cpulist so we can scatter `node` to all its `lps`.
-    char buf200[200];
-    const size_t bytes_read = ReadSysfs(kNode, node, buf200);
+    char buf[kMaxSysfs];
+    const size_t bytes_read = ReadSysfs(kNode, node, buf);
     if (bytes_read == 0) break;
     const std::vector<size_t> list =
-        ExpandList(buf200, bytes_read, lps.size() - 1);
+        ExpandList(buf, bytes_read, lps.size() - 1);
     for (size_t lp : list) {
       lps[lp].node = static_cast<uint8_t>(node);
     }
@@ -900,13 +903,13 @@ using Caches = std::array<Cache, 4>;
 std::string ReadString(const char* name, size_t index) {
   // First CPU is usually a P core.
   const std::string path("/sys/devices/system/cpu/cpu0/cache/index%zu/");
-  char buf200[200];
-  size_t end = ReadSysfs((path + name).c_str(), index, buf200);
+  char buf[kMaxSysfs];
+  size_t end = ReadSysfs((path + name).c_str(), index, buf);
   // Remove trailing newline/null to simplify string comparison.
   for (; end != 0; --end) {
-    if (buf200[end - 1] != '\0' && buf200[end - 1] != '\n') break;
+    if (buf[end - 1] != '\0' && buf[end - 1] != '\n') break;
   }
-  return std::string(buf200, buf200 + end);
+  return std::string(buf, buf + end);
 }
 
 template <typename T>
-- 
2.43.0


From cae63b7d0d597a79dde71684764125671ba6a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:09 +0000
Subject: [PATCH 35/44] fix: PROFILER_PRINT_RESULTS crashed if no thread had
 entered a zone

---
 hwy/profiler.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 29f697d..1cfd19d 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -497,6 +497,8 @@ class ThreadList {
   void PrintResults() {
     const auto acq = std::memory_order_acquire;
     const size_t num_threads = num_threads_.load(acq);
+    // No thread entered a zone, hence threads_[0] is null.
+    if (num_threads == 0) return;
 
     ThreadSpecific* main = threads_[0].load(acq);
     main->AnalyzeRemainingPackets();
@@ -507,9 +509,7 @@ class ThreadList {
       main->GetResults().Assimilate(ts->GetResults());
     }
 
-    if (num_threads != 0) {
-      main->GetResults().Print();
-    }
+    main->GetResults().Print();
   }
 
  private:
-- 
2.43.0


From 66ea74eff2eb8d50c6ede2ddf8036b3c1a492b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:09 +0000
Subject: [PATCH 36/44] fix: profiler reported a merged duplicate zone again if
 it was the last

---
 hwy/profiler.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hwy/profiler.h b/hwy/profiler.h
index 1cfd19d..99dd2a0 100644
--- a/hwy/profiler.h
+++ b/hwy/profiler.h
@@ -355,9 +355,8 @@ class Results {
         if (!strcmp(name, string_origin + zones_[j].BiasedOffset())) {
           num_calls += zones_[j].NumCalls();
           zones_[i].Add(0, zones_[j].Duration());
-          // j was the last zone, so we are done.
-          if (j == num_zones_ - 1) break;
-          // Replace current zone with the last one, and check it next.
+          // Replace current zone with the last one, and check it next. If j was
+          // already the last, this only removes it.
           zones_[j] = zones_[--num_zones_];
         } else {  // Name differed, try next Accumulator.
           ++j;
-- 
2.43.0


From ad6b60fc2e30c0aa97d20d46b6d97e77be7f4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:39 +0000
Subject: [PATCH 37/44] fix: nanobenchmark reported a wrapped-around duration
 if the empty function took longer

---
 hwy/nanobenchmark.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwy/nanobenchmark.cc b/hwy/nanobenchmark.cc
index 0a885d2..f74c8bb 100644
--- a/hwy/nanobenchmark.cc
+++ b/hwy/nanobenchmark.cc
@@ -283,7 +283,9 @@ HWY_DLLEXPORT size_t Measure(const Func func, const uint8_t* arg,
     const timer::Ticks total_skip =
         TotalDuration(func, arg, &subset, p, &max_rel_mad);
 
-    if (total < total_skip) {
+    // The second comparison prevents the subtraction below from wrapping around.
+    if (total < total_skip ||
+        total - total_skip < overhead - overhead_skip) {
       HWY_WARN("Measurement failed: total %f < %f\n",
                static_cast<double>(total), static_cast<double>(total_skip));
       return 0;
-- 
2.43.0


From 0b4226547bcdf89734dd390f53b74e422af89900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:39 +0000
Subject: [PATCH 38/44] fix: Atan2 ignored the sign of a negative zero x if y
 is zero

---
 hwy/contrib/math/math-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwy/contrib/math/math-inl.h b/hwy/contrib/math/math-inl.h
index d741684..005ddd8 100644
--- a/hwy/contrib/math/math-inl.h
+++ b/hwy/contrib/math/math-inl.h
@@ -144,7 +144,8 @@ HWY_INLINE V Atan2(const D d, V y, V x) {
   const V k0 = Zero(d);
   const M y_0 = Eq(y, k0);
   const M x_0 = Eq(x, k0);
-  const M x_neg = Lt(x, k0);
+  // Not Lt: negative zero also counts, because atan2(+-0, -0) is +-pi.
+  const M x_neg = IsNegative(x);
   const M y_inf = IsInf(y);
   const M x_inf = IsInf(x);
   const M nan = Or(IsNaN(y), IsNaN(x));
-- 
2.43.0


From ad3e07ee030271326858a171cc34679559f1f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:58 +0000
Subject: [PATCH 39/44] fix: best baseline AVX10.2 target was not attainable,
 so -mavx10.2 failed with #error

---
 hwy/detect_targets.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/detect_targets.h b/hwy/detect_targets.h
index caca430..d47d11c 100644
--- a/hwy/detect_targets.h
+++ b/hwy/detect_targets.h
@@ -859,7 +859,7 @@
 #define HWY_ATTAINABLE_TARGETS_X86                                    \
   HWY_ENABLED(HWY_BASELINE_SCALAR | HWY_SSE2 | HWY_SSSE3 | HWY_SSE4 | \
               HWY_AVX2 | HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_ZEN4 |     \
-              HWY_AVX3_SPR)
+              HWY_AVX3_SPR | HWY_STATIC_TARGET)
 #endif  // !HWY_COMPILER_MSVC
 #endif  // HWY_ATTAINABLE_TARGETS_X86
 
-- 
2.43.0


From 4fe95f18353cf7a50372082d2bf1b0203dcdb2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:58 +0000
Subject: [PATCH 40/44] fix: AVX3 baseline also requires AVX512CD, which the
 target uses

---
 hwy/detect_targets.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/detect_targets.h b/hwy/detect_targets.h
index d47d11c..4aaaddc 100644
--- a/hwy/detect_targets.h
+++ b/hwy/detect_targets.h
@@ -601,7 +601,7 @@
 
 // Require everything in AVX2 plus AVX-512 flags (also set by MSVC)
 #if HWY_BASELINE_AVX2 != 0 && defined(__AVX512F__) && defined(__AVX512BW__) && \
-    defined(__AVX512DQ__) && defined(__AVX512VL__) &&                          \
+    defined(__AVX512CD__) && defined(__AVX512DQ__) && defined(__AVX512VL__) && \
     ((!HWY_COMPILER_GCC_ACTUAL && !HWY_COMPILER_CLANG) ||                      \
      HWY_COMPILER_GCC_ACTUAL < 1400 || HWY_COMPILER_CLANG < 1800 ||            \
      defined(__EVEX512__))
-- 
2.43.0


From 10ad103ab1512bc3e4c6d62c67ea45065d9f938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:58 +0000
Subject: [PATCH 41/44] fix: AVX3_DL baseline also requires GFNI, which the
 target uses

---
 hwy/detect_targets.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/detect_targets.h b/hwy/detect_targets.h
index 4aaaddc..7c43b9b 100644
--- a/hwy/detect_targets.h
+++ b/hwy/detect_targets.h
@@ -614,7 +614,7 @@
 #if HWY_BASELINE_AVX3 != 0 && defined(__AVX512VNNI__) && defined(__VAES__) && \
     defined(__VPCLMULQDQ__) && defined(__AVX512VBMI__) &&                     \
     defined(__AVX512VBMI2__) && defined(__AVX512VPOPCNTDQ__) &&               \
-    defined(__AVX512BITALG__)
+    defined(__AVX512BITALG__) && defined(__GFNI__)
 #define HWY_BASELINE_AVX3_DL HWY_AVX3_DL
 #else
 #define HWY_BASELINE_AVX3_DL 0
-- 
2.43.0


From 7ebd6c6f3a2d202814fce98a333fb8565c590464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:58 +0000
Subject: [PATCH 42/44] fix: LoongArch run-time detection did not compile
 (undeclared hwcap, getauxval)

---
 hwy/targets.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hwy/targets.cc b/hwy/targets.cc
index 994d569..eabe011 100644
--- a/hwy/targets.cc
+++ b/hwy/targets.cc
@@ -26,7 +26,8 @@
 #if HWY_ARCH_X86
 #include <xmmintrin.h>
 
-#elif (HWY_ARCH_ARM || HWY_ARCH_PPC || HWY_ARCH_S390X || HWY_ARCH_RISCV) && \
+#elif (HWY_ARCH_ARM || HWY_ARCH_PPC || HWY_ARCH_S390X || HWY_ARCH_RISCV || \
+       HWY_ARCH_LOONGARCH) &&                                              \
     HWY_OS_LINUX
 // sys/auxv.h does not always include asm/hwcap.h, or define HWCAP*, hence we
 // still include this directly. See #1199.
@@ -713,8 +714,8 @@ using CapBits = unsigned long;  // NOLINT
 static int64_t DetectTargets() {
   int64_t bits = 0;
   const CapBits hw = getauxval(AT_HWCAP);
-  if (hwcap & LA_HWCAP_LSX) bits |= HWY_LSX;
-  if (hwcap & LA_HWCAP_LASX) bits |= HWY_LASX;
+  if (hw & LA_HWCAP_LSX) bits |= HWY_LSX;
+  if (hw & LA_HWCAP_LASX) bits |= HWY_LASX;
   return bits;
 }
 }  // namespace loongarch
-- 
2.43.0


From 1bb1ecd5002f78465833ad02ab1f12d3e5a66f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:22 +0000
Subject: [PATCH 43/44] fix: PerfCounters::Init returned true although no
 counters are available

---
 hwy/perf_counters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwy/perf_counters.cc b/hwy/perf_counters.cc
index 472d19b..4884d21 100644
--- a/hwy/perf_counters.cc
+++ b/hwy/perf_counters.cc
@@ -290,7 +290,7 @@ class PMU {
       return true;
     } else {
       HWY_WARN("No valid counters found.");
-      return true;
+      return false;
     }
   }
 
-- 
2.43.0


From 83bfd39dfe0e454e2199d441d8d7ec4a395df571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:22 +0000
Subject: [PATCH 44/44] fix: PerfCounters::StopAllAndReset aborted if counters
 are unavailable

---
 hwy/perf_counters.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwy/perf_counters.cc b/hwy/perf_counters.cc
index 4884d21..80cc96f 100644
--- a/hwy/perf_counters.cc
+++ b/hwy/perf_counters.cc
@@ -301,6 +301,8 @@ class PMU {
   }
 
   void StopAllAndReset() {
+    // Nothing to do if unavailable; prctl fails if the kernel lacks support.
+    if (HWY_UNLIKELY(fds_.empty())) return;
     HWY_ASSERT(prctl(PR_TASK_PERF_EVENTS_DISABLE) == 0);
     for (int fd : fds_) {
       HWY_ASSERT(ioctl(fd, PERF_EVENT_IOC_RESET, 0) == 0);
-- 
2.43.0

