// P29: compress and expand.
#include "simd/common.h"
#include "simd/arena.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {

template <class D> HWY_NOINLINE MFromD<D> InMask(D d, const Bytes& bools) {
  using TU = MakeUnsigned<TFromD<D>>;
  const Rebind<TU, D> du;
  HWY_ALIGN TU buf[64];
  for (size_t i = 0; i < Lanes(d); ++i) buf[i] = bools[i] ? static_cast<TU>(~TU{0}) : TU{0};
  return MaskFromVec(BitCast(d, LoadU(du, buf)));
}
template <class D> HWY_NOINLINE VFromD<D> InVec(D d, const uint8_t* p) {
  using T = TFromD<D>;
  HWY_ALIGN T buf[128];
#if HWY_TARGET != HWY_SCALAR
  const ScalableTag<T> df;
  memset(buf, 0xC7, sizeof buf);
  memcpy(buf, p, Lanes(d) * sizeof(T));
  return ResizeBitCast(d, LoadU(df, buf));
#else
  memcpy(buf, p, sizeof(T));
  return LoadU(d, buf);
#endif
}
template <class D> HWY_NOINLINE void OutVec(D d, VFromD<D> v, Bytes& c) {
  HWY_ALIGN TFromD<D> buf[128];
  StoreU(v, d, buf);
  const uint8_t* b = reinterpret_cast<const uint8_t*>(buf);
  c.insert(c.end(), b, b + Lanes(d) * sizeof(TFromD<D>));
}
inline Bytes RandBytes(size_t n, Rng& g) { Bytes b(n); for (auto& x : b) x = static_cast<uint8_t>(g.next() >> 24); return b; }

template <class D> struct Cmp {
  using T = TFromD<D>;
  static constexpr size_t N = MaxLanes(D()), VB = N * sizeof(T);
  D d; Rng g; std::string t, nx;
  Cmp() : g(E().seed + 900 + sizeof(T) * 10 + N), t(TName<T>()), nx("\"n\":" + std::to_string(N)) {}
  // mask \o vector \o result, preceded by whether unselected lanes must follow.
  template <class F> HWY_NOINLINE void Vec(const char* op, const Bytes& m, uint8_t part, const F& f) {
    E().cur = std::string(op) + " " + t;
    Bytes v = RandBytes(VB, g), c;
    c.push_back(part); c.insert(c.end(), m.begin(), m.end()); c.insert(c.end(), v.begin(), v.end());
    OutVec(d, f(InVec(d, v.data()), InMask(d, m)), c);
    Rec(op, t.c_str(), c, nx);
  }
  // fault, pre, post, mask, vector, returned count (8), memory before, memory after; VB addressed bytes.
  template <class F> HWY_NOINLINE void Mem(const char* op, const Bytes& m, const F& f) {
    E().cur = std::string(op) + " " + t;
    const Window w = Place(0, static_cast<int>(g.below(3)), VB, sizeof(T), g.below(64));
    Scramble(w, g);
    Bytes before(w.begin(), w.begin() + w.size()), v = RandBytes(VB, g);
    uint64_t count = 0;
    const bool fault = Faults([&]() HWY_ATTR { count = f(InVec(d, v.data()), InMask(d, m), reinterpret_cast<T*>(w.p)); });
    Bytes c; c.push_back(fault); c.push_back(static_cast<uint8_t>(w.pre)); c.push_back(static_cast<uint8_t>(w.post));
    c.insert(c.end(), m.begin(), m.end()); c.insert(c.end(), v.begin(), v.end()); Put(c, count);
    c.insert(c.end(), before.begin(), before.end()); c.insert(c.end(), w.begin(), w.begin() + w.size());
    Rec(op, t.c_str(), c, nx);
  }
  HWY_NOINLINE void One(const Bytes& m, bool all) {
    using V = VFromD<D>; using M = MFromD<D>;
    const uint8_t part = CompressIsPartition<T>::value;
    uint8_t bits[16]; for (auto& x : bits) x = static_cast<uint8_t>(g.next() >> 20);
    for (size_t i = 0; i < N; ++i) { const uint8_t b = static_cast<uint8_t>(1u << (i % 8)); bits[i / 8] = static_cast<uint8_t>(m[i] ? (bits[i / 8] | b) : (bits[i / 8] & ~b)); }
    Vec("Compress", m, part, [&](V v, M k) HWY_ATTR { return Compress(v, k); });
    Vec("Expand", m, 0, [&](V v, M k) HWY_ATTR { return Expand(v, k); });
    if (all || g.below(3) == 0) {
      Vec("CompressNot", m, part, [&](V v, M k) HWY_ATTR { return CompressNot(v, k); });
      Vec("Compress", m, part, [&](V v, M) HWY_ATTR { return CompressBits(v, bits); });
      Mem("CompressStore", m, [&](V v, M k, T* p) HWY_ATTR { return CompressStore(v, k, d, p); });
      Mem("CompressBlendedStore", m, [&](V v, M k, T* p) HWY_ATTR { return CompressBlendedStore(v, k, d, p); });
      Mem("CompressStore", m, [&](V v, M, T* p) HWY_ATTR { return CompressBitsStore(v, bits, d, p); });
      {
        const Window w = Place(0, static_cast<int>(g.below(3)), VB, sizeof(T), g.below(64)); Scramble(w, g);
        Bytes c, r; c.push_back(0); c.insert(c.end(), m.begin(), m.end()); c.insert(c.end(), w.p, w.p + VB);
        const bool fault = Faults([&]() HWY_ATTR { OutVec(d, LoadExpand(InMask(d, m), d, reinterpret_cast<const T*>(w.p)), r); });
        c[0] = fault; c.insert(c.end(), r.begin(), r.end());
        Rec("Expand", t.c_str(), c, nx);
      }
    }
  }
  HWY_NOINLINE void Blocks(const Bytes& m) {
#if HWY_TARGET != HWY_SCALAR
    using V = VFromD<D>; using M = MFromD<D>;
    if constexpr (std::is_same<T, uint64_t>::value && VB >= 16) {
      Bytes m2(N); for (size_t i = 0; i < N; ++i) m2[i] = m[i / 2];
      Vec("CompressNot", m2, CompressIsPartition<T>::value, [&](V v, M k) HWY_ATTR { return CompressBlocksNot(v, k); });
    }
#endif
  }
  HWY_NOINLINE void All() {
    const size_t lim = N <= 8 ? (size_t{1} << N) : 256;
    const size_t reps = E().thorough ? 8 : 1;
    for (size_t r = 0; r < reps; ++r) for (size_t x = 0; x < lim; ++x) {
      Bytes m(N);
      // Every value of each group of eight lanes.
      for (size_t i = 0; i < N; ++i) { const size_t q = i / 8; const size_t b = (x * (1 + 2 * ((q * (37 + r)) & 127)) + q * 91) & 255; m[i] = (b >> (i % 8)) & 1; }
      One(m, N <= 4 || E().thorough); Blocks(m);
    }
    if (N > 8) for (int r = 0; r < 8; ++r) { Bytes m(N); const uint32_t p = 1 + g.below(30); for (auto& x : m) x = g.below(31) < p; One(m, true); }
    One(Bytes(N, 0), true); One(Bytes(N, 1), true);
  }
};
template <typename T> HWY_NOINLINE void TestType() {
  ForAllSizes<T>([](auto d) HWY_ATTR { Cmp<decltype(d)> c; c.All(); });
}
HWY_NOINLINE void TestAll() {
  InstallFault();
#if VPART == 0
  TestType<uint8_t>(); TestType<int16_t>(); TestType<uint32_t>(); TestType<int64_t>(); TestType<float>();
#else
  TestType<int8_t>(); TestType<uint16_t>(); TestType<int32_t>(); TestType<uint64_t>();
#if HWY_HAVE_FLOAT64
  TestType<double>();
#endif
#if HWY_HAVE_FLOAT16
  TestType<hwy::float16_t>();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
