// P30: conversions between integer lane types, and reinterpretation of bits.
#include "simd/convert.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
template <typename TF, typename TTo> std::vector<uint64_t> Values(size_t random) {
  // Boundaries of both types.
  std::vector<uint64_t> v = Edges<TF>();
  const uint64_t m = sizeof(TF) == 8 ? ~0ull : (1ull << (sizeof(TF) * 8 % 64)) - 1;
  for (uint64_t e : Edges<TTo>()) for (uint64_t k : {0ull, 1ull, ~0ull}) { v.push_back((e + k) & m); v.push_back((0 - e + k) & m); v.push_back(((e << 1) + k) & m); v.push_back((static_cast<uint64_t>(static_cast<int64_t>(FromBits<MakeSigned<TTo>>(e))) + k) & m); }
  if (sizeof(TF) == 1) for (uint64_t i = 0; i < 256; ++i) v.push_back(i);
  if (sizeof(TF) == 2 && E().thorough) for (uint64_t i = 0; i < 65536; ++i) v.push_back(i);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  Rng g(E().seed + sizeof(TF) * 16 + sizeof(TTo));
  for (size_t i = 0; i < random; ++i) v.push_back(RandomBits<TF>(g));
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below(static_cast<uint32_t>(i))]);
  return v;
}
size_t Reps() { return E().thorough ? 3000 : 400; }

template <typename TF, typename TTo> HWY_NOINLINE void Demote() {
  const auto v = Values<TF, TTo>(Reps());
  CONV(DemoteTo, TF, TTo, v, DemoteTo(dto, v));
  if constexpr (!IsSigned<TF>() && !IsSigned<TTo>()) CONV(TruncateTo, TF, TTo, v, TruncateTo(dto, v));
#if HWY_TARGET != HWY_SCALAR
  if constexpr (sizeof(TF) == 2 * sizeof(TTo)) {
    Rng g(E().seed + 77 + sizeof(TF));
    const size_t reps = E().thorough ? 60 : 10;
    ForAllSizes<TF>([&](auto df) HWY_ATTR {
      const RepartitionToNarrow<decltype(df)> dn0;
      const Rebind<TTo, decltype(dn0)> dn;
      Whole2("ReorderDemote2To", df, dn, v, reps, g, [&](auto a, auto b) HWY_ATTR { return ReorderDemote2To(dn, a, b); });
      Whole2("OrderedDemote2To", df, dn, v, reps, g, [&](auto a, auto b) HWY_ATTR { return OrderedDemote2To(dn, a, b); });
      if constexpr (!IsSigned<TF>() && !IsSigned<TTo>())
        Whole2("OrderedTruncate2To", df, dn, v, reps, g, [&](auto a, auto b) HWY_ATTR { return OrderedTruncate2To(dn, a, b); });
    });
  }
#endif
}
template <typename TF, typename TTo> HWY_NOINLINE void Promote() {
  const auto v = Values<TF, TTo>(Reps());
  CONV(PromoteTo, TF, TTo, v, PromoteTo(dto, v));
  if constexpr (2 * sizeof(TF) == sizeof(TTo)) {
    Rng g(E().seed + 78 + sizeof(TF));
    const size_t reps = E().thorough ? 60 : 10;
#if HWY_TARGET == HWY_SCALAR
    const CappedTag<TF, 1> df; const CappedTag<TTo, 1> dw;
    Whole1("PromoteLowerTo", df, dw, v, 50, g, [&](auto a) HWY_ATTR { return PromoteLowerTo(dw, a); });
    Whole1("PromoteEvenTo", df, dw, v, 50, g, [&](auto a) HWY_ATTR { return PromoteEvenTo(dw, a); });
    (void)reps;
#else
    ForAllSizes<TTo>([&](auto dw) HWY_ATTR {
      const Twice<Rebind<TF, decltype(dw)>> df;
      Whole1("PromoteLowerTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteLowerTo(dw, a); });
      Whole1("PromoteUpperTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteUpperTo(dw, a); });
      Whole1("PromoteEvenTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteEvenTo(dw, a); });
      Whole1("PromoteOddTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteOddTo(dw, a); });
    });
#endif
  }
}
template <typename T> HWY_NOINLINE void Resize() {
  Rng g(E().seed + 79 + sizeof(T));
  std::vector<uint64_t> v(64);
  for (auto& x : v) x = RandomBits<T>(g);
  auto to = [&](auto tag) HWY_ATTR {
    using T2 = decltype(tag);
    if constexpr (HWY_TARGET != HWY_SCALAR || sizeof(T) == sizeof(T2)) {
      ForAllSizes<T>([&](auto d) HWY_ATTR {
        ForAllSizes<T2>([&](auto d2) HWY_ATTR {
          Whole1("ResizeBitCast", d, d2, v, 2, g, [&](auto a) HWY_ATTR { return ResizeBitCast(d2, a); });
          Whole1("ZeroExtendResizeBitCast", d, d2, v, 2, g, [&](auto a) HWY_ATTR { return ZeroExtendResizeBitCast(d2, d, a); });
        });
      });
    }
  };
  to(uint8_t()); to(uint16_t()); to(int32_t()); to(uint64_t()); to(float());
}
HWY_NOINLINE void TestAll() {
#if VPART == 0
  Demote<uint64_t, uint32_t>(); Demote<uint64_t, int32_t>(); Demote<int64_t, uint32_t>(); Demote<int64_t, int32_t>();
  Demote<uint64_t, uint16_t>(); Demote<uint64_t, int16_t>(); Demote<int64_t, uint16_t>(); Demote<int64_t, int16_t>();
  Demote<uint64_t, uint8_t>(); Demote<uint64_t, int8_t>(); Demote<int64_t, uint8_t>(); Demote<int64_t, int8_t>();
#elif VPART == 1
  Demote<uint32_t, uint16_t>(); Demote<uint32_t, int16_t>(); Demote<int32_t, uint16_t>(); Demote<int32_t, int16_t>();
  Demote<uint32_t, uint8_t>(); Demote<uint32_t, int8_t>(); Demote<int32_t, uint8_t>(); Demote<int32_t, int8_t>();
  Demote<uint16_t, uint8_t>(); Demote<uint16_t, int8_t>(); Demote<int16_t, uint8_t>(); Demote<int16_t, int8_t>();
  { std::vector<uint64_t> v; for (uint64_t i = 0; i < 256; ++i) v.push_back((i * 37) & 255); CONV(U8FromU32, uint32_t, uint8_t, v, U8FromU32(v)); }
#elif VPART == 2
  Promote<uint8_t, uint16_t>(); Promote<uint8_t, uint32_t>(); Promote<uint8_t, uint64_t>(); Promote<uint16_t, uint32_t>(); Promote<uint16_t, uint64_t>(); Promote<uint32_t, uint64_t>();
  Promote<uint8_t, int16_t>(); Promote<uint8_t, int32_t>(); Promote<uint8_t, int64_t>(); Promote<uint16_t, int32_t>(); Promote<uint16_t, int64_t>(); Promote<uint32_t, int64_t>();
  Promote<int8_t, int16_t>(); Promote<int8_t, int32_t>(); Promote<int8_t, int64_t>(); Promote<int16_t, int32_t>(); Promote<int16_t, int64_t>(); Promote<int32_t, int64_t>();
#else
  Resize<uint8_t>(); Resize<int16_t>(); Resize<uint32_t>(); Resize<int64_t>();
#if HWY_HAVE_FLOAT64
  Resize<double>();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
