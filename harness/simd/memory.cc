// P26: loads and stores.
#include "simd/common.h"
#include "simd/arena.h"
#include "hwy/cache_control.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {

template <class D> HWY_NOINLINE MFromD<D> InMask(D d, const Bytes& bools) {
  using TU = MakeUnsigned<TFromD<D>>;
  const Rebind<TU, D> du;
  HWY_ALIGN TU buf[64];
  for (size_t i = 0; i < Lanes(d); ++i) buf[i] = bools[i] ? static_cast<TU>(~TU{0}) : TU{0};
  return MaskFromVec(BitCast(d, LoadU(du, buf)));
}
template <class D> HWY_NOINLINE VFromD<D> InVec(D d, const uint8_t* bytes) {
  HWY_ALIGN TFromD<D> buf[64];
  memcpy(buf, bytes, Lanes(d) * sizeof(TFromD<D>));
  return LoadU(d, buf);
}
template <class D> HWY_NOINLINE void OutVec(D d, VFromD<D> v, Bytes& r) {
  HWY_ALIGN TFromD<D> buf[64];
  StoreU(v, d, buf);
  const uint8_t* b = reinterpret_cast<const uint8_t*>(buf);
  r.assign(b, b + Lanes(d) * sizeof(TFromD<D>));
}
inline Bytes RandBytes(size_t n, Rng& g) { Bytes b(n); for (auto& x : b) x = static_cast<uint8_t>(g.next() >> 24); return b; }

template <class D> struct Mem {
  using T = TFromD<D>;
  D d; size_t N; Rng g; std::string t;
  Mem() : N(Lanes(d)), g(E().seed + 200 + sizeof(T) + Lanes(d)), t(TName<T>()) {}
  static T* P(const Window& w) { return reinterpret_cast<T*>(w.p); }
  // One observation: fault flag, window geometry, memory before and after, operands, result.
  template <class F> HWY_NOINLINE void Run(const char* op, const Window& w, const Bytes& aux, const F& f) {
    E().cur = std::string(op) + " " + t;
    Scramble(w, g);
    Bytes before(w.begin(), w.begin() + w.size()), result;
    const bool fault = Faults([&]() HWY_ATTR { f(result); });
    Bytes c;
    c.push_back(fault); c.push_back(static_cast<uint8_t>(w.pre)); c.push_back(static_cast<uint8_t>(w.post)); c.push_back(static_cast<uint8_t>(w.len / 256)); c.push_back(static_cast<uint8_t>(w.len % 256));
    c.insert(c.end(), before.begin(), before.end());
    c.insert(c.end(), w.begin(), w.begin() + w.size());
    c.insert(c.end(), aux.begin(), aux.end());
    c.insert(c.end(), result.begin(), result.end());
    Rec(op, t.c_str(), c, "\"n\":" + std::to_string(N));
  }
  HWY_NOINLINE void All() {
    const size_t VB = N * sizeof(T);
    for (int rep = 0; rep < (E().thorough ? 40 : 4); ++rep) for (int kind = 0; kind < 3; ++kind) {
      const uint32_t off = g.below(64);
      const Window w = Place(0, kind, VB, sizeof(T), off);
      const Bytes v = RandBytes(VB, g);
      Run("LoadU", w, {}, [&](Bytes& r) HWY_ATTR { OutVec(d, LoadU(d, P(w)), r); });
      Run("StoreU", w, v, [&](Bytes&) HWY_ATTR { StoreU(InVec(d, v.data()), d, P(w)); });
      const Window wa = Place(0, kind, VB, 1, 64 * (off % 8));
      Run("LoadU", wa, {}, [&](Bytes& r) HWY_ATTR { OutVec(d, Load(d, P(wa)), r); });
      Run("StoreU", wa, v, [&](Bytes&) HWY_ATTR { Store(InVec(d, v.data()), d, P(wa)); });
      if constexpr (!hwy::IsSpecialFloat<T>()) Run("Stream", Place(0, 2, VB < 16 ? 16 : VB, 1, 64 * (off % 8)), v, [&](Bytes&) HWY_ATTR { Stream(InVec(d, v.data()), d, P(Place(0, 2, VB, 1, 64 * (off % 8)))); FlushStream(); });
      // Masks.
      Bytes m(N); const uint32_t pr = g.below(9); for (auto& x : m) x = g.below(8) < pr;
      Bytes mv = m; mv.insert(mv.end(), v.begin(), v.end());
      const auto mk = InMask(d, m);
      Run("MaskedLoad", w, m, [&](Bytes& r) HWY_ATTR { OutVec(d, MaskedLoad(mk, d, P(w)), r); });
      Run("MaskedLoadOr", w, mv, [&](Bytes& r) HWY_ATTR { OutVec(d, MaskedLoadOr(InVec(d, v.data()), mk, d, P(w)), r); });
      Run("BlendedStore", w, mv, [&](Bytes&) HWY_ATTR { BlendedStore(InVec(d, v.data()), mk, d, P(w)); });
#if !HWY_MEM_OPS_MIGHT_FAULT
      {  // only the first kk lanes are accessible: masks limited to them must not fault
        const size_t kk = g.below(static_cast<uint32_t>(N + 1));
        const Window wk = Place(0, 0, kk * sizeof(T), sizeof(T), 0);
        Bytes m2 = m; for (size_t i = kk; i < N; ++i) m2[i] = 0;
        Bytes mv2 = m2; mv2.insert(mv2.end(), v.begin(), v.end());
        const auto mk2 = InMask(d, m2);
        Run("MaskedLoad", wk, m2, [&](Bytes& r) HWY_ATTR { OutVec(d, MaskedLoad(mk2, d, P(wk)), r); });
        Run("MaskedLoadOr", wk, mv2, [&](Bytes& r) HWY_ATTR { OutVec(d, MaskedLoadOr(InVec(d, v.data()), mk2, d, P(wk)), r); });
        Run("BlendedStore", wk, mv2, [&](Bytes&) HWY_ATTR { BlendedStore(InVec(d, v.data()), mk2, d, P(wk)); });
      }
#endif
#if HWY_TARGET != HWY_SCALAR
      if constexpr (MaxLanes(D()) * sizeof(T) >= 16) {
        const Window w16 = Place(0, kind, 16, sizeof(T), off);
        Run("LoadDup128", w16, {}, [&](Bytes& r) HWY_ATTR { OutVec(d, LoadDup128(d, P(w16)), r); });
      }
      if constexpr (MaxLanes(D()) >= 2 && !hwy::IsSpecialFloat<T>()) {
        const Window wh = Place(0, kind, VB / 2, sizeof(T), off);
        Run("InsertIntoUpper", wh, v, [&](Bytes& r) HWY_ATTR { OutVec(d, InsertIntoUpper(d, P(wh), InVec(d, v.data())), r); });
      }
#endif
      if constexpr (!hwy::IsSigned<T>() && !hwy::IsFloat<T>() && !hwy::IsSpecialFloat<T>() && sizeof(T) > 1) Narrow<MakeNarrow<T>>(kind, off, v);
      if constexpr (!hwy::IsSigned<T>() && !hwy::IsFloat<T>() && !hwy::IsSpecialFloat<T>() && sizeof(T) > 2) Narrow<MakeNarrow<MakeNarrow<T>>>(kind, off, v);
      if constexpr (!hwy::IsSigned<T>() && !hwy::IsFloat<T>() && !hwy::IsSpecialFloat<T>() && sizeof(T) > 4) Narrow<MakeNarrow<MakeNarrow<MakeNarrow<T>>>>(kind, off, v);
    }
    // First-N forms: every count; the accessible region is exactly what may be accessed.
    for (int kind = 0; kind < 3; ++kind) for (size_t k = 0; k <= N + 2; ++k) {
      if (kind > 0 && N > 16 && k % 3 != g.below(3)) continue;
      Counted(kind, k);
    }
    for (size_t k : {size_t{255}, size_t{256}, size_t{300}}) for (int kind = 0; kind < 3; ++kind) Counted(kind, k);
  }
  template <typename TN> HWY_NOINLINE void Narrow(int kind, uint32_t off, const Bytes& v) {
    const Rebind<TN, D> dn;
    const Window w = Place(0, kind, N * sizeof(TN), sizeof(TN), off);
    Run("TruncateStore", w, v, [&](Bytes&) HWY_ATTR { TruncateStore(InVec(d, v.data()), d, reinterpret_cast<TN*>(w.p)); });
  }
  HWY_NOINLINE void Counted(int kind, size_t k) {
    const size_t VB = N * sizeof(T);
    const uint32_t off = g.below(64);
    const Window w = Place(0, kind, k * sizeof(T), sizeof(T), off);
    const Window wn = Place(0, kind, std::min(k, N) * sizeof(T), sizeof(T), off);
    Bytes kb; Put(kb, static_cast<uint64_t>(k));
    Bytes v = RandBytes(VB, g);
    Bytes kv = kb; kv.insert(kv.end(), v.begin(), v.end());
    Run("LoadN", w, kb, [&](Bytes& r) HWY_ATTR { OutVec(d, LoadN(d, P(w), k), r); });
    Run("LoadNOr", w, kv, [&](Bytes& r) HWY_ATTR { OutVec(d, LoadNOr(InVec(d, v.data()), d, P(w), k), r); });
    Run("StoreN", wn, kv, [&](Bytes&) HWY_ATTR { StoreN(InVec(d, v.data()), d, P(wn), k); });
    if constexpr (!hwy::IsSpecialFloat<T>()) if (k <= N) {
      T val; memcpy(&val, v.data(), sizeof(T));
      Bytes kx = kb; Put(kx, val);
      Run("SafeFillN", wn, kx, [&](Bytes&) HWY_ATTR { SafeFillN(k, val, d, P(wn)); });
      const Window from = Place(1, kind == 0 ? 0 : 1, k * sizeof(T), sizeof(T), 0);
      Scramble(from, g);
      Bytes kf = kb; kf.insert(kf.end(), from.p, from.p + k * sizeof(T));
      Run("SafeCopyN", wn, kf, [&](Bytes&) HWY_ATTR { SafeCopyN(k, d, P(from), P(wn)); });
    }
  }
};
template <typename T> HWY_NOINLINE void TestType() {
  ForAllSizes<T>([](auto d) HWY_ATTR { Mem<decltype(d)> m; m.All(); });
}
HWY_NOINLINE void TestAll() {
  InstallFault();
#if VPART == 0
  TestType<uint8_t>(); TestType<int16_t>(); TestType<uint32_t>(); TestType<float>(); TestType<hwy::bfloat16_t>();
#else
  TestType<int8_t>(); TestType<uint16_t>(); TestType<int32_t>(); TestType<int64_t>(); TestType<uint64_t>(); TestType<hwy::float16_t>();
#if HWY_HAVE_FLOAT64
  TestType<double>();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
