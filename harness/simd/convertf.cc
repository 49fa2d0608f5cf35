// P31: conversions between floating-point lane types and from/to integers.
#include "simd/floats.h"
#include "simd/convert.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
size_t Reps() { return E().thorough ? 20000 : 1200; }
// Midpoints between neighbouring narrow values, as wide values, with neighbours.
template <typename TN, typename TW> void AddMidpoints(std::vector<uint64_t>& v, Rng& g, size_t n) {
  constexpr int kShift = MantissaBits<TW>() - MantissaBits<TN>();
  const int bias = static_cast<int>(MaxExponentField<TN>()) / 2;
  const uint64_t s = 1ull << (sizeof(TW) * 8 - 1);
  for (size_t i = 0; i < n; ++i) {
    // Random value of the narrow type's exponent range with only p or p+1 significant bits.
    const int e = i % 3 == 0 ? -bias - static_cast<int>(g.below(static_cast<uint32_t>(MantissaBits<TN>()) + 2)) : i % 7 == 0 ? bias : static_cast<int>(g.below(static_cast<uint32_t>(2 * bias))) - bias;
    const int lsb = e < 1 - bias ? 1 - bias - MantissaBits<TN>() : e - MantissaBits<TN>();   // ulp of the narrow type
    const double mant = floor(ldexp(1.0 + static_cast<double>(g.next() >> 12) * ldexp(1.0, -52), e - lsb));
    const double x = ldexp(mant + (g.below(4) ? 0.5 : 0.0), lsb);
    const TW w = static_cast<TW>(x);
    const uint64_t b = ToBits(w) | (g.below(2) ? s : 0);
    v.push_back(b); v.push_back(b + 1); if (b & ~s) v.push_back(b - 1); v.push_back(b ^ (g.next() & ((1ull << (kShift / 2)) - 1)));
  }
}
template <typename TF, typename TTo> std::vector<uint64_t> In() {
  std::vector<uint64_t> v;
  Rng g(E().seed + sizeof(TF) * 64 + sizeof(TTo) * 8 + (IsFloat<TTo>() ? 1 : IsSigned<TTo>() ? 2 : 3));
  if constexpr (IsFloat<TF>()) {
    v = FloatValues<TF>(g.next(), Reps());
    if constexpr (!IsSpecialFloat<TF>()) AddIntegers<TF>(v);
    else for (uint64_t i = 0; i < 65536; i += E().thorough ? 1 : 13) v.push_back(i);
    if constexpr (IsFloat<TTo>() && sizeof(TTo) < sizeof(TF)) AddMidpoints<TTo, TF>(v, g, Reps() / 2);
  } else {
    v = Edges<TF>();
    const uint64_t m = sizeof(TF) == 8 ? ~0ull : (1ull << (sizeof(TF) * 8 % 64)) - 1;
    for (size_t i = 0; i < Reps(); ++i) {
      v.push_back(RandomBits<TF>(g));
      // Integers next to the midpoint of neighbouring floats.
      constexpr int mb = MantissaBits<TTo>();
      if (static_cast<int>(sizeof(TF) * 8) > mb + 2) {
        const int k = 1 + static_cast<int>(g.below(static_cast<uint32_t>(sizeof(TF) * 8 - static_cast<size_t>(mb) - 1)));
        uint64_t x = ((g.next() >> (63 - mb)) | (1ull << mb)) << k;
        x += (1ull << (k - 1)) + g.below(3) - 1;
        v.push_back((g.below(2) ? x : 0 - x) & m);
      }
    }
  }
  Mix(v, E().seed);
  return v;
}
#define C(OP, TF, TTO, CALL) { const auto in = In<TF, TTO>(); CONV(OP, TF, TTO, in, CALL); }
// Two-step promotions of whole vectors.
template <typename TF, typename TTo> HWY_NOINLINE void PromoteParts() {
  const auto v = In<TF, TTo>();
  Rng g(E().seed + 5);
  const size_t reps = E().thorough ? 200 : 25;
  constexpr bool kToInt = IsFloat<TF>() && !IsFloat<TTo>();
#if HWY_TARGET == HWY_SCALAR
  const CappedTag<TF, 1> df; const CappedTag<TTo, 1> dw;
  Whole1("PromoteLowerTo", df, dw, v, 100, g, [&](auto a) HWY_ATTR { return PromoteLowerTo(dw, a); });
  Whole1("PromoteEvenTo", df, dw, v, 100, g, [&](auto a) HWY_ATTR { return PromoteEvenTo(dw, a); });
  (void)reps; (void)kToInt;
#else
  ForAllSizes<TTo>([&](auto dw) HWY_ATTR {
    const Twice<Rebind<TF, decltype(dw)>> df;
    Whole1("PromoteLowerTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteLowerTo(dw, a); });
    Whole1("PromoteUpperTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteUpperTo(dw, a); });
    Whole1("PromoteEvenTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteEvenTo(dw, a); });
    Whole1("PromoteOddTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteOddTo(dw, a); });
    if constexpr (kToInt) {
      Whole1("PromoteInRangeLowerTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteInRangeLowerTo(dw, a); });
      Whole1("PromoteInRangeUpperTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteInRangeUpperTo(dw, a); });
      Whole1("PromoteInRangeEvenTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteInRangeEvenTo(dw, a); });
      Whole1("PromoteInRangeOddTo", df, dw, v, reps, g, [&](auto a) HWY_ATTR { return PromoteInRangeOddTo(dw, a); });
    }
  });
#endif
}
HWY_NOINLINE void Demote2() {
#if HWY_TARGET != HWY_SCALAR
  const auto v = In<float, bfloat16_t>();
  Rng g(E().seed + 6);
  ForAllSizes<float>([&](auto df) HWY_ATTR {
    const Repartition<bfloat16_t, decltype(df)> dn;
    Whole2("ReorderDemote2To", df, dn, v, 60, g, [&](auto a, auto b) HWY_ATTR { return ReorderDemote2To(dn, a, b); });
    Whole2("OrderedDemote2To", df, dn, v, 60, g, [&](auto a, auto b) HWY_ATTR { return OrderedDemote2To(dn, a, b); });
  });
#endif
}
HWY_NOINLINE void TestAll() {
#if VPART == 0
  C(PromoteTo, float16_t, float, PromoteTo(dto, v)); C(PromoteTo, bfloat16_t, float, PromoteTo(dto, v));
  C(DemoteTo, float, float16_t, DemoteTo(dto, v)); C(DemoteTo, float, bfloat16_t, DemoteTo(dto, v));
  PromoteParts<float16_t, float>(); PromoteParts<bfloat16_t, float>(); Demote2();
#elif VPART == 1
  C(ConvertTo, int32_t, float, ConvertTo(dto, v)); C(ConvertTo, uint32_t, float, ConvertTo(dto, v));
  C(ConvertTo, float, int32_t, ConvertTo(dto, v)); C(ConvertTo, float, uint32_t, ConvertTo(dto, v));
  C(ConvertInRangeTo, float, int32_t, ConvertInRangeTo(dto, v)); C(ConvertInRangeTo, float, uint32_t, ConvertInRangeTo(dto, v));
  C(NearestInt, float, int32_t, NearestInt(v)); C(CeilInt, float, int32_t, CeilInt(v)); C(FloorInt, float, int32_t, FloorInt(v));
#elif VPART == 2 && HWY_HAVE_INTEGER64
  C(PromoteTo, float, int64_t, PromoteTo(dto, v)); C(PromoteTo, float, uint64_t, PromoteTo(dto, v));
  C(PromoteInRangeTo, float, int64_t, PromoteInRangeTo(dto, v)); C(PromoteInRangeTo, float, uint64_t, PromoteInRangeTo(dto, v));
  C(DemoteTo, int64_t, float, DemoteTo(dto, v)); C(DemoteTo, uint64_t, float, DemoteTo(dto, v));
  PromoteParts<float, int64_t>(); PromoteParts<float, uint64_t>();
#elif VPART == 3 && HWY_HAVE_FLOAT64
  C(PromoteTo, float, double, PromoteTo(dto, v)); C(PromoteTo, float16_t, double, PromoteTo(dto, v)); C(PromoteTo, int32_t, double, PromoteTo(dto, v)); C(PromoteTo, uint32_t, double, PromoteTo(dto, v));
  PromoteParts<float, double>(); PromoteParts<int32_t, double>(); PromoteParts<uint32_t, double>();
  C(DemoteTo, double, float, DemoteTo(dto, v)); C(DemoteTo, double, float16_t, DemoteTo(dto, v)); C(DemoteTo, double, int32_t, DemoteTo(dto, v)); C(DemoteTo, double, uint32_t, DemoteTo(dto, v));
  C(DemoteInRangeTo, double, int32_t, DemoteInRangeTo(dto, v)); C(DemoteInRangeTo, double, uint32_t, DemoteInRangeTo(dto, v));
  C(DemoteToNearestInt, double, int32_t, DemoteToNearestInt(dto, v));
#elif VPART == 4 && HWY_HAVE_FLOAT64
  C(ConvertTo, int64_t, double, ConvertTo(dto, v)); C(ConvertTo, uint64_t, double, ConvertTo(dto, v));
  C(ConvertTo, double, int64_t, ConvertTo(dto, v)); C(ConvertTo, double, uint64_t, ConvertTo(dto, v));
  C(ConvertInRangeTo, double, int64_t, ConvertInRangeTo(dto, v)); C(ConvertInRangeTo, double, uint64_t, ConvertInRangeTo(dto, v));
  C(NearestInt, double, int64_t, NearestInt(v)); C(CeilInt, double, int64_t, CeilInt(v)); C(FloorInt, double, int64_t, FloorInt(v));
#elif VPART == 5 && HWY_HAVE_FLOAT16
  C(ConvertTo, int16_t, float16_t, ConvertTo(dto, v)); C(ConvertTo, uint16_t, float16_t, ConvertTo(dto, v));
  C(ConvertTo, float16_t, int16_t, ConvertTo(dto, v)); C(ConvertTo, float16_t, uint16_t, ConvertTo(dto, v));
  C(ConvertInRangeTo, float16_t, int16_t, ConvertInRangeTo(dto, v)); C(ConvertInRangeTo, float16_t, uint16_t, ConvertInRangeTo(dto, v));
  C(NearestInt, float16_t, int16_t, NearestInt(v)); C(CeilInt, float16_t, int16_t, CeilInt(v)); C(FloorInt, float16_t, int16_t, FloorInt(v));
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
