// P27: interleaved loads/stores, gathers and scatters.
#include "simd/common.h"
#include "simd/arena.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
template <class D> HWY_NOINLINE VFromD<D> InVec(D d, const uint8_t* bytes) {
  HWY_ALIGN TFromD<D> buf[64];
  memcpy(buf, bytes, Lanes(d) * sizeof(TFromD<D>));
  return LoadU(d, buf);
}
template <class D> HWY_NOINLINE MFromD<D> InMask(D d, const Bytes& bools) {
  using TU = MakeUnsigned<TFromD<D>>;
  const Rebind<TU, D> du;
  HWY_ALIGN TU buf[64];
  for (size_t i = 0; i < Lanes(d); ++i) buf[i] = bools[i] ? static_cast<TU>(~TU{0}) : TU{0};
  return MaskFromVec(BitCast(d, LoadU(du, buf)));
}
template <class D> HWY_NOINLINE void OutVec(D d, VFromD<D> v, Bytes& r) {
  HWY_ALIGN TFromD<D> buf[64];
  StoreU(v, d, buf);
  const uint8_t* b = reinterpret_cast<const uint8_t*>(buf);
  r.insert(r.end(), b, b + Lanes(d) * sizeof(TFromD<D>));
}
inline Bytes RandBytes(size_t n, Rng& g) { Bytes b(n); for (auto& x : b) x = static_cast<uint8_t>(g.next() >> 24); return b; }

template <class D> struct Mem {
  using T = TFromD<D>;
  D d; size_t N; Rng g; std::string t;
  Mem() : N(Lanes(d)), g(E().seed + 300 + sizeof(T) + Lanes(d)), t(TName<T>()) {}
  static T* P(const Window& w) { return reinterpret_cast<T*>(w.p); }
  template <class F> HWY_NOINLINE void Run(const char* op, const Window& w, const Bytes& aux, const F& f) {
    E().cur = std::string(op) + " " + t;
    Scramble(w, g);
    Bytes before(w.begin(), w.begin() + w.size()), result;
    const bool fault = Faults([&]() HWY_ATTR { f(result); });
    Bytes c;
    c.push_back(fault); c.push_back(static_cast<uint8_t>(w.pre)); c.push_back(static_cast<uint8_t>(w.post)); c.push_back(static_cast<uint8_t>(w.len / 256)); c.push_back(static_cast<uint8_t>(w.len % 256));
    c.insert(c.end(), before.begin(), before.end());
    c.insert(c.end(), w.begin(), w.begin() + w.size());
    c.insert(c.end(), aux.begin(), aux.end());
    c.insert(c.end(), result.begin(), result.end());
    Rec(op, t.c_str(), c, "\"n\":" + std::to_string(N));
  }
  HWY_NOINLINE void Interleaved() {
    using V = VFromD<D>;
    const size_t VB = N * sizeof(T);
    for (int rep = 0; rep < (E().thorough ? 20 : 2); ++rep) for (int kind = 0; kind < 3; ++kind) {
      const uint32_t off = g.below(64);
      for (size_t K = 2; K <= 4; ++K) {
        const Window w = Place(0, kind, K * VB, sizeof(T), off);
        const Bytes v = RandBytes(K * VB, g);
        const char* ln[5] = {"", "", "LoadInterleaved2", "LoadInterleaved3", "LoadInterleaved4"};
        const char* sn[5] = {"", "", "StoreInterleaved2", "StoreInterleaved3", "StoreInterleaved4"};
        Run(ln[K], w, {}, [&](Bytes& r) HWY_ATTR {
          V a, b, c, e;
          if (K == 2) LoadInterleaved2(d, P(w), a, b); else if (K == 3) LoadInterleaved3(d, P(w), a, b, c); else LoadInterleaved4(d, P(w), a, b, c, e);
          OutVec(d, a, r); OutVec(d, b, r); if (K > 2) OutVec(d, c, r); if (K > 3) OutVec(d, e, r);
        });
        Run(sn[K], w, v, [&](Bytes&) HWY_ATTR {
          const V a = InVec(d, v.data()), b = InVec(d, v.data() + VB);
          if (K == 2) { StoreInterleaved2(a, b, d, P(w)); return; }
          const V c = InVec(d, v.data() + 2 * VB);
          if (K == 3) { StoreInterleaved3(a, b, c, d, P(w)); return; }
          StoreInterleaved4(a, b, c, InVec(d, v.data() + 3 * VB), d, P(w));
        });
      }
    }
  }
  HWY_NOINLINE void GatherScatter() {
    using TI = MakeSigned<T>;
    const Rebind<TI, D> di;
    const size_t VB = N * sizeof(T);
    const size_t kElems = 24;
    for (int rep = 0; rep < (E().thorough ? 60 : 12); ++rep) {
      const int kind = rep % 2;     // base directly before / after inaccessible memory
      const Window w = Place(0, kind, kElems * sizeof(T), sizeof(T), 0);
      const Bytes v = RandBytes(VB, g);
      Bytes m(N); const uint32_t pr = g.below(9); for (auto& x : m) x = g.below(8) < pr;
      std::vector<TI> idx(N), bad(N), uniq(N);
      for (size_t i = 0; i < N; ++i) idx[i] = static_cast<TI>(g.below(kElems));
      if (rep == 0) for (size_t i = 0; i < N; ++i) idx[i] = static_cast<TI>(kElems - 1);
      // Disabled lanes address inaccessible memory.
      bad = idx;
      for (size_t i = 0; i < N; ++i) if (!m[i]) bad[i] = static_cast<TI>(Arena::kSize / sizeof(T) + 1 + g.below(400));
      HWY_ALIGN TI ib[64]; HWY_ALIGN TI bb[64]; HWY_ALIGN TI ob[64];
      memcpy(ib, idx.data(), VB); memcpy(bb, bad.data(), VB);
      for (size_t i = 0; i < N; ++i) ob[i] = static_cast<TI>(idx[i] * static_cast<TI>(sizeof(T)) + (rep % 3 == 2 && idx[i] + 1 < static_cast<TI>(kElems) ? 0 : 0));
      Bytes xb; for (TI i : idx) xb.push_back(static_cast<uint8_t>(i));
      Bytes mb = m; mb.insert(mb.end(), xb.begin(), xb.end());
      Bytes mbv = mb; mbv.insert(mbv.end(), v.begin(), v.end());
      Bytes xv = xb; xv.insert(xv.end(), v.begin(), v.end());
      const auto mk = InMask(d, m);
      Run("Gather", w, xb, [&](Bytes& r) HWY_ATTR { OutVec(d, GatherIndex(d, P(w), LoadU(di, ib)), r); });
      Run("Gather", w, xb, [&](Bytes& r) HWY_ATTR { OutVec(d, GatherOffset(d, P(w), LoadU(di, ob)), r); });
      Run("MaskedGather", w, mb, [&](Bytes& r) HWY_ATTR { OutVec(d, MaskedGatherIndex(mk, d, P(w), LoadU(di, bb)), r); });
      Run("MaskedGatherOr", w, mbv, [&](Bytes& r) HWY_ATTR { OutVec(d, MaskedGatherIndexOr(InVec(d, v.data()), mk, d, P(w), LoadU(di, bb)), r); });
      Run("Scatter", w, xv, [&](Bytes&) HWY_ATTR { ScatterIndex(InVec(d, v.data()), d, P(w), LoadU(di, ib)); });
      Run("Scatter", w, xv, [&](Bytes&) HWY_ATTR { ScatterOffset(InVec(d, v.data()), d, P(w), LoadU(di, ob)); });
      Run("MaskedScatter", w, mbv, [&](Bytes&) HWY_ATTR { MaskedScatterIndex(InVec(d, v.data()), mk, d, P(w), LoadU(di, bb)); });
      for (size_t k = 0; k <= N + 1; k += 1 + (N > 8 ? g.below(3) : 0)) {
        HWY_ALIGN TI nb[64];
        for (size_t i = 0; i < N; ++i) nb[i] = i < k ? idx[i] : static_cast<TI>(Arena::kSize / sizeof(T) + 1 + g.below(400));
        Bytes kx; kx.push_back(static_cast<uint8_t>(k)); kx.insert(kx.end(), xb.begin(), xb.end());
        Bytes kv = kx; kv.insert(kv.end(), v.begin(), v.end());
        Run("GatherN", w, kx, [&](Bytes& r) HWY_ATTR { OutVec(d, GatherIndexN(d, P(w), LoadU(di, nb), k), r); });
        Run("GatherNOr", w, kv, [&](Bytes& r) HWY_ATTR { OutVec(d, GatherIndexNOr(InVec(d, v.data()), d, P(w), LoadU(di, nb), k), r); });
        Run("ScatterN", w, kv, [&](Bytes&) HWY_ATTR { ScatterIndexN(InVec(d, v.data()), d, P(w), LoadU(di, nb), k); });
      }
    }
  }
};
template <typename T> HWY_NOINLINE void TestType(bool gather = true) {
#if HWY_TARGET != HWY_SCALAR
  ForAllSizes<T>([](auto d) HWY_ATTR { Mem<decltype(d)> m; m.Interleaved(); });
#else
  ForAllSizes<T>([](auto d) HWY_ATTR { Mem<decltype(d)> m; m.Interleaved(); });
#endif
  if constexpr (sizeof(T) >= 4) ForAllSizes<T>([](auto d) HWY_ATTR { Mem<decltype(d)> m; m.GatherScatter(); });
}
HWY_NOINLINE void TestAll() {
  InstallFault();
#if VPART == 0
  TestType<uint8_t>(); TestType<int16_t>(); TestType<uint32_t>(); TestType<float>(); TestType<uint64_t>();
#else
  TestType<int8_t>(); TestType<uint16_t>(); TestType<int32_t>(); TestType<int64_t>();
#if HWY_HAVE_FLOAT64
  TestType<double>();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
