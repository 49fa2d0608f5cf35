// P25: comparisons and masks.
#include "simd/common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {

// ---------------------------------------------------------------- masks as boolean vectors
template <class D> using Bools = std::vector<uint8_t>;
template <class D> HWY_NOINLINE void OutMask(D d, MFromD<D> m, Bytes& c) {
  using T = TFromD<D>;
  HWY_ALIGN T buf[64];
  StoreU(VecFromMask(d, m), d, buf);
  const size_t N = Lanes(d);
  for (size_t i = 0; i < N; ++i) {
    uint8_t b[sizeof(T)]; memcpy(b, &buf[i], sizeof(T));
    bool z = true, o = true;
    for (uint8_t x : b) { z = z && x == 0; o = o && x == 255; }
    c.push_back(z ? 0 : o ? 1 : 2);
  }
}
// The mask with the given booleans; with garbage in lanes beyond the (partial) vector if `dirty`.
template <class D> HWY_NOINLINE MFromD<D> InMask(D d, const Bytes& bools, bool dirty) {
  using T = TFromD<D>;
  HWY_ALIGN T buf[64];
  memset(buf, dirty ? 255 : 0, sizeof buf);
  for (size_t i = 0; i < Lanes(d); ++i) memset(&buf[i], bools[i] ? 255 : 0, sizeof(T));
#if HWY_TARGET != HWY_SCALAR
  if (dirty) {
    const ScalableTag<T> df;
    return MaskFromVec(ResizeBitCast(d, LoadU(df, buf)));
  }
#endif
  return MaskFromVec(LoadU(d, buf));
}
template <class D> HWY_NOINLINE VFromD<D> InVec(D d, const TFromD<D>* p, bool dirty) {
#if HWY_TARGET != HWY_SCALAR
  if (dirty) {
    using T = TFromD<D>;
    const ScalableTag<T> df;
    HWY_ALIGN T buf[64];
    memset(buf, 0x7b, sizeof buf);
    memcpy(buf, p, Lanes(d) * sizeof(T));
    return ResizeBitCast(d, LoadU(df, buf));
  }
#endif
  return LoadU(d, p);
}
inline std::vector<Bytes> MaskSet(size_t N, Rng& g, size_t budget) {
  std::vector<Bytes> r;
  if (N <= 6 || (N <= 8 && E().thorough)) {
    for (unsigned m = 0; m < (1u << N); ++m) { Bytes b(N); for (size_t i = 0; i < N; ++i) b[i] = (m >> i) & 1; r.push_back(b); }
    return r;
  }
  r.push_back(Bytes(N, 0)); r.push_back(Bytes(N, 1));
  for (size_t i = 0; i < N; ++i) { Bytes b(N, 0); b[i] = 1; r.push_back(b); Bytes e(N, 1); e[i] = 0; if (i % 3 == 0) r.push_back(e); }
  for (size_t i = 1; i < N; i += 1 + N / 8) { Bytes b(N, 0); for (size_t k = 0; k < i; ++k) b[k] = 1; r.push_back(b); for (auto& x : b) x ^= 1; r.push_back(b); }
  for (size_t k = 0; k < budget; ++k) { Bytes b(N); const uint32_t p = 1 + g.below(7); for (auto& x : b) x = g.below(8) < p; r.push_back(b); }
  return r;
}
template <class D> std::string NX(D d) { return "\"n\":" + std::to_string(Lanes(d)); }
inline void PutI(Bytes& c, uint64_t v) { Put(c, v); }

template <class D> HWY_NOINLINE void TestMasks(D d) {
  using T = TFromD<D>;
  const size_t N = Lanes(d);
  const std::string nx = NX(d);
  const char* t = TName<T>();
  Rng g(E().seed + 70 + sizeof(T) * 100 + N);
  E().cur = std::string("mask ") + t;
  auto rec = [&](const char* op, const Bytes& c) { Rec(op, t, c, nx); };
  // Creation.
  for (size_t k = 0; k <= N + 3; ++k) { Bytes c; PutI(c, k); OutMask(d, FirstN(d, k), c); rec("FirstN", c); }
  for (uint64_t k : {uint64_t{64}, uint64_t{65}, uint64_t{100}, uint64_t{126}, uint64_t{127}, sizeof(T) > 1 ? uint64_t{32767} : uint64_t{127}, sizeof(T) > 1 ? uint64_t{256} : uint64_t{127}, sizeof(T) > 2 ? uint64_t{65536} : uint64_t{127},
                     sizeof(T) > 2 ? uint64_t{0x7FFFFFFF} : uint64_t{127}, sizeof(T) > 4 ? uint64_t{0x7FFFFFFFFFFFFFFF} : uint64_t{127}, sizeof(T) > 4 ? uint64_t{0x100000000} : uint64_t{127}}) {
    Bytes c; PutI(c, k); OutMask(d, FirstN(d, k), c); rec("FirstN", c);
  }
  { Bytes c; OutMask(d, MaskFalse(d), c); rec("MaskFalse", c); }
  for (unsigned k = 0; k < 40; ++k) {
    const unsigned bits = k < 16 ? 1u << k : static_cast<unsigned>(g.next()) & 0xFFFF;
    Bytes c; PutI(c, bits); OutMask(d, Dup128MaskFromMaskBits(d, bits), c); rec("Dup128MaskFromMaskBits", c);
  }
  const std::vector<Bytes> ms = MaskSet(N, g, E().thorough ? 200 : 30);
  for (const Bytes& mb : ms) {
    // Bits of a mask in memory; bytes after them may hold anything.
    uint8_t bits[8] = {0}; for (size_t i = 0; i < N; ++i) bits[i / 8] = static_cast<uint8_t>(bits[i / 8] | (mb[i] << (i % 8)));
    if (N < 8) bits[0] = static_cast<uint8_t>(bits[0] | (g.next() << N));
    for (size_t i = (N + 7) / 8; i < 8; ++i) bits[i] = static_cast<uint8_t>(g.next());
    Bytes c; for (uint8_t b : bits) c.push_back(b);
    OutMask(d, LoadMaskBits(d, bits), c);
    rec("LoadMaskBits", c);
    Bytes f; for (uint8_t b : bits) f.push_back(b);
    PutI(f, CountTrue(d, LoadMaskBits(d, bits)));
    rec("LoadMaskBitsCount", f);
  }
  for (size_t mi = 0; mi < ms.size(); ++mi) for (int dirty = 0; dirty < 2; ++dirty) {
    const Bytes& mb = ms[mi];
    const auto m = InMask(d, mb, dirty != 0);
    bool any = false; for (uint8_t b : mb) any = any || b;
    Bytes c;
    { c = mb; OutMask(d, m, c); rec("RoundTrip", c); }
    { c = mb; PutI(c, BitsFromMask(d, m)); rec("BitsFromMask", c); }
    { c = mb; uint8_t b[24]; memset(b, 0xA5, sizeof b); const size_t r = StoreMaskBits(d, m, b + 8); PutI(c, r); for (uint8_t x : b) c.push_back(x); rec("StoreMaskBits", c); }
    { c = mb; PutI(c, CountTrue(d, m)); rec("CountTrue", c); }
    { c = mb; PutI(c, static_cast<uint64_t>(FindFirstTrue(d, m))); rec("FindFirstTrue", c); }
    { c = mb; PutI(c, static_cast<uint64_t>(FindLastTrue(d, m))); rec("FindLastTrue", c); }
    if (any) {
      { c = mb; PutI(c, FindKnownFirstTrue(d, m)); rec("FindFirstTrue", c); }
      { c = mb; PutI(c, FindKnownLastTrue(d, m)); rec("FindLastTrue", c); }
    }
    { c = mb; PutI(c, AllTrue(d, m)); rec("AllTrue", c); }
    { c = mb; PutI(c, AllFalse(d, m)); rec("AllFalse", c); }
    { c = mb; OutMask(d, Not(m), c); rec("Not", c); }
    { c = mb; PutI(c, CountTrue(d, Not(m))); rec("CountFalse", c); }
    { c = mb; PutI(c, AllTrue(d, Not(m))); rec("AllFalse", c); }
    { c = mb; OutMask(d, SetOnlyFirst(m), c); rec("SetOnlyFirst", c); }
    { c = mb; OutMask(d, SetBeforeFirst(m), c); rec("SetBeforeFirst", c); }
    { c = mb; OutMask(d, SetAtOrBeforeFirst(m), c); rec("SetAtOrBeforeFirst", c); }
    { c = mb; OutMask(d, SetAtOrAfterFirst(m), c); rec("SetAtOrAfterFirst", c); }
    { c = mb; OutMask(d, SlideMask1Up(d, m), c); rec("SlideMask1Up", c); }
    { c = mb; OutMask(d, SlideMask1Down(d, m), c); rec("SlideMask1Down", c); }
    if (mi % 3 == 0 || N <= 4) for (size_t k = 0; k < N; k += 1 + (N > 16 ? g.below(4) : 0)) {
      c = mb; PutI(c, k); OutMask(d, SlideMaskUpLanes(d, m, k), c); rec("SlideMaskUpLanes", c);
      c = mb; PutI(c, k); OutMask(d, SlideMaskDownLanes(d, m, k), c); rec("SlideMaskDownLanes", c);
    }
    const Bytes& mb2 = ms[g.below(static_cast<uint32_t>(ms.size()))];
    const auto m2 = InMask(d, mb2, g.below(2) != 0);
    Bytes two = mb; two.insert(two.end(), mb2.begin(), mb2.end());
    { c = two; OutMask(d, And(m, m2), c); rec("And", c); }
    { c = two; OutMask(d, AndNot(m, m2), c); rec("AndNot", c); }
    { c = two; OutMask(d, Or(m, m2), c); rec("Or", c); }
    { c = two; OutMask(d, Xor(m, m2), c); rec("Xor", c); }
    { Bytes ex = mb2; for (size_t i = 0; i < N; ++i) if (mb[i]) ex[i] = 0;
      c = mb; c.insert(c.end(), ex.begin(), ex.end()); const auto m3 = InMask(d, ex, false); OutMask(d, ExclusiveNeither(m, m3), c); rec("ExclusiveNeither", c); }
    // Other lane types of the same size.
    if constexpr (!hwy::IsSame<T, MakeUnsigned<T>>()) { const RebindToUnsigned<D> du; c = mb; OutMask(du, RebindMask(du, m), c); rec("RoundTrip", c); }
    if constexpr (!hwy::IsSame<T, MakeSigned<T>>()) { const RebindToSigned<D> di; c = mb; OutMask(di, RebindMask(di, m), c); rec("RoundTrip", c); }
    // Ternary.
    {
      HWY_ALIGN T y[64]; HWY_ALIGN T n[64]; HWY_ALIGN T r[64];
      uint8_t* yb = reinterpret_cast<uint8_t*>(y); uint8_t* nb = reinterpret_cast<uint8_t*>(n);
      for (size_t i = 0; i < N * sizeof(T); ++i) { yb[i] = static_cast<uint8_t>(g.next() >> 20); nb[i] = static_cast<uint8_t>(g.next() >> 20); }
      const auto vy = InVec(d, y, dirty); const auto vn = InVec(d, n, dirty);
      auto out = [&](const char* op, VFromD<D> v) HWY_ATTR {
        StoreU(v, d, r);
        Bytes x = mb; for (size_t i = 0; i < N; ++i) { Put(x, y[i]); } for (size_t i = 0; i < N; ++i) Put(x, n[i]); for (size_t i = 0; i < N; ++i) Put(x, r[i]);
        rec(op, x);
      };
      out("IfThenElse", IfThenElse(m, vy, vn));
      out("IfThenElseZero", IfThenElseZero(m, vy));
      out("IfThenZeroElse", IfThenZeroElse(m, vn));
      out("IfThenElse", IfVecThenElse(VecFromMask(d, m), vy, vn));
    }
#if HWY_TARGET != HWY_SCALAR
    if constexpr (MaxLanes(D()) >= 2) {
      const Half<D> dh;
      { c = mb; OutMask(dh, LowerHalfOfMask(dh, m), c); rec("LowerHalfOfMask", c); }
      { c = mb; OutMask(dh, UpperHalfOfMask(dh, m), c); rec("UpperHalfOfMask", c); }
      Bytes lo(mb.begin(), mb.begin() + static_cast<long>(N / 2)), hi(mb.begin() + static_cast<long>(N / 2), mb.end());
      { c = mb; OutMask(d, CombineMasks(d, InMask(dh, hi, dirty), InMask(dh, lo, !dirty)), c); rec("RoundTrip", c); }
      if constexpr (sizeof(T) > 1 && !hwy::IsFloat<T>()) {
        using TN = MakeNarrow<T>;
        const Repartition<TN, D> dto;   // twice the lanes
        c = two; OutMask(dto, OrderedDemote2MasksTo(dto, d, m, m2), c); rec("ConcatMasks", c);
      }
    }
#endif
    if constexpr (!hwy::IsFloat<T>()) {
      if constexpr (sizeof(T) < 8) {
        using TW = MakeWide<T>;
        if constexpr (MaxLanes(D()) * sizeof(TW) <= HWY_MAX_BYTES) { const Rebind<TW, D> dw; c = mb; OutMask(dw, PromoteMaskTo(dw, d, m), c); rec("RoundTrip", c); }
      }
      if constexpr (sizeof(T) < 4) {
        using TW = MakeWide<MakeWide<T>>;
        if constexpr (MaxLanes(D()) * sizeof(TW) <= HWY_MAX_BYTES) { const Rebind<TW, D> dw; c = mb; OutMask(dw, PromoteMaskTo(dw, d, m), c); rec("RoundTrip", c); }
      }
#if HWY_TARGET != HWY_SCALAR
      if constexpr (sizeof(T) > 1) { const Rebind<MakeNarrow<T>, D> dn; c = mb; OutMask(dn, DemoteMaskTo(dn, d, m), c); rec("RoundTrip", c); }
      if constexpr (sizeof(T) > 2) { const Rebind<MakeNarrow<MakeNarrow<T>>, D> dn; c = mb; OutMask(dn, DemoteMaskTo(dn, d, m), c); rec("RoundTrip", c); }
#endif
    }
  }
}

// ---------------------------------------------------------------- comparisons
// The result byte of a comparison: 0 or 1 (2: malformed mask).
template <typename T, int kArity, class F>
HWY_NOINLINE void LaneCmp(const char* op, const std::vector<std::vector<uint64_t>>& in, const F& f) {
  E().cur = std::string(op) + " " + TName<T>();
  const size_t n = in[0].size();
  std::vector<int> have(n, -1);
  HWY_ALIGN T buf[64];
  auto body = [&](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    for (size_t at = 0; at < n; at += N) {
      Bytes res;
      const auto a = LoadBits(d, in[0], at, buf);
      if constexpr (kArity == 1) OutMask(d, f(d, a), res);
      else OutMask(d, f(d, a, LoadBits(d, in[1], at, buf)), res);
      for (size_t i = 0; i < N && at + i < n; ++i) {
        if (have[at + i] == res[i]) continue;
        have[at + i] = res[i];
        Bytes c;
        for (int k = 0; k < kArity; ++k) Put(c, FromBits<T>(in[static_cast<size_t>(k)][at + i]));
        c.push_back(res[i]);
        Rec(op, TName<T>(), c);
      }
    }
  };
  ForSizes<T>(body);
}
template <typename T> std::vector<uint64_t> FloatEdges() {
  const int bits = sizeof(T) * 8, mant = sizeof(T) == 8 ? 52 : 23;
  const uint64_t sign = 1ull << (bits - 1), inf = (sign - 1) ^ ((1ull << mant) - 1), one = ((inf >> (mant + 1)) << mant) & inf;
  std::vector<uint64_t> v = {0, 1, 2, (1ull << mant) - 1, 1ull << mant, (1ull << mant) + 1, one, one - 1, one + 1, inf - 1, inf, inf + 1, inf | (1ull << (mant - 1)), sign - 1};
  const size_t n = v.size();
  for (size_t i = 0; i < n; ++i) v.push_back(v[i] | sign);
  return v;
}
template <typename T> HWY_NOINLINE void TestCompare() {
  auto in2 = Tuples<T>(2, E().seed + 90 + sizeof(T), E().thorough ? 4000 : 400);
  auto in1 = Tuples<T>(1, E().seed + 91 + sizeof(T), 200);
  if constexpr (hwy::IsFloat<T>()) {
    auto e = FloatEdges<T>();
    for (uint64_t a : e) { in1[0].push_back(a); for (uint64_t b : e) { in2[0].push_back(a); in2[1].push_back(b); } }
  }
  for (size_t i = 0, n = in2[0].size(); i < n; i += 7) { in2[0].push_back(in2[0][i]); in2[1].push_back(in2[0][i]); }
#define CMP(op) LaneCmp<T, 2>(#op, in2, [](auto, auto a, auto b) HWY_ATTR { return op(a, b); })
  CMP(Eq); CMP(Ne); CMP(Lt); CMP(Le); CMP(Gt); CMP(Ge);
  LaneCmp<T, 2>("Eq", in2, [](auto, auto a, auto b) HWY_ATTR { return a == b; });
  LaneCmp<T, 2>("Ne", in2, [](auto, auto a, auto b) HWY_ATTR { return a != b; });
  LaneCmp<T, 2>("Lt", in2, [](auto, auto a, auto b) HWY_ATTR { return a < b; });
  LaneCmp<T, 2>("Le", in2, [](auto, auto a, auto b) HWY_ATTR { return a <= b; });
  LaneCmp<T, 2>("Gt", in2, [](auto, auto a, auto b) HWY_ATTR { return a > b; });
  LaneCmp<T, 2>("Ge", in2, [](auto, auto a, auto b) HWY_ATTR { return a >= b; });
  if constexpr (hwy::IsSigned<T>()) {
    if constexpr (hwy::IsFloat<T>()) for (auto& x : in1[0]) { const T f = FromBits<T>(x); if (!(f == f) || f == T(0)) x = 0; }
    LaneCmp<T, 1>("IsNegative", in1, [](auto, auto a) HWY_ATTR { return IsNegative(a); });
  }
  if constexpr (!hwy::IsFloat<T>()) {
    auto tb = in2;
    for (size_t i = 0; i < tb[1].size(); ++i) tb[1][i] = 1ull << (i % (8 * sizeof(T)));
    LaneCmp<T, 2>("TestBit", tb, [](auto, auto a, auto b) HWY_ATTR { return TestBit(a, b); });
  }
}
#if HWY_TARGET != HWY_SCALAR
HWY_NOINLINE void TestCompare128() {
  E().cur = "128";
  Rng g(E().seed + 99);
  auto e = Edges<uint64_t>();
  std::vector<uint64_t> a, b;
  for (int i = 0; i < 1200; ++i) {
    uint64_t x[4];
    for (auto& v : x) v = g.below(3) ? e[g.below(static_cast<uint32_t>(e.size()))] : g.next();
    if (g.below(2)) x[3] = x[1];
    if (g.below(3) == 0) x[2] = x[0];
    a.push_back(x[0]); a.push_back(x[1]); b.push_back(x[2]); b.push_back(x[3]);
  }
  auto body = [&](auto d) HWY_ATTR {
    if constexpr (MaxLanes(d) >= 2) {
      HWY_ALIGN uint64_t buf[64];
      const size_t N = Lanes(d);
      for (size_t at = 0; at + N <= a.size(); at += N) {
        const auto va = LoadBits(d, a, at, buf); const auto vb = LoadBits(d, b, at, buf);
        auto out = [&](const char* op, auto m) HWY_ATTR {
          Bytes r; OutMask(d, m, r);
          for (size_t i = 0; i < N; i += 2) {
            Bytes c; Put(c, a[at + i]); Put(c, a[at + i + 1]); Put(c, b[at + i]); Put(c, b[at + i + 1]); c.push_back(r[i]); c.push_back(r[i + 1]);
            Rec(op, "u64", c);
          }
        };
        out("Lt128", Lt128(d, va, vb)); out("Lt128Upper", Lt128Upper(d, va, vb));
        out("Eq128", Eq128(d, va, vb)); out("Ne128", Ne128(d, va, vb));
        out("Eq128Upper", Eq128Upper(d, va, vb)); out("Ne128Upper", Ne128Upper(d, va, vb));
      }
    }
  };
  ForSizes<uint64_t>(body);
}
#endif
template <typename T> HWY_NOINLINE void TestType() {
  ForAllSizes<T>([](auto d) HWY_ATTR { TestMasks(d); });
  TestCompare<T>();
}
HWY_NOINLINE void TestAll() {
#if VPART == 0
  TestType<uint8_t>(); TestType<int16_t>(); TestType<uint32_t>(); TestType<int64_t>(); TestType<float>();
#else
  TestType<int8_t>(); TestType<uint16_t>(); TestType<int32_t>(); TestType<uint64_t>();
#if HWY_HAVE_FLOAT64
  TestType<double>();
#endif
#if HWY_TARGET != HWY_SCALAR
  TestCompare128();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
