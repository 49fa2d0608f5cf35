// P34: widening multiply-accumulate operations.
#include "simd/convert.h"
#include "simd/floats.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
size_t Reps() { return E().thorough ? 1500 : 250; }
template <typename TB, typename TW> std::string X(size_t n, int k = 0) { return std::string("\"tb\":\"") + TName<TB>() + "\",\"to\":\"" + TName<TW>() + "\",\"n\":" + std::to_string(n) + ",\"k\":" + std::to_string(k); }

template <typename T> uint64_t IntOperand(Rng& g, size_t r, size_t i) {
  static const std::vector<uint64_t> e = Edges<T>();
  switch (r % 7) {
    case 0: return ToBits(static_cast<T>(i + 1));
    case 1: return e[g.below(static_cast<uint32_t>(e.size()))];
    case 2: return ToBits(LimitsMin<T>());
    case 3: return ToBits(g.below(2) ? LimitsMax<T>() : LimitsMin<T>());
    case 4: return ToBits(static_cast<T>(g.below(3) ? LimitsMin<T>() : static_cast<T>(g.below(3) - 1)));
    default: return RandomBits<T>(g);
  }
}
// Moderate float: products and sums neither overflow nor reach subnormals.
template <typename T> T ModFloat(Rng& g) {
  const uint64_t m = (1ull << MantissaBits<T>()) - 1, bias = static_cast<uint64_t>(MaxExponentField<T>()) / 2;
  if (g.below(12) == 0) return FromBits<T>(0);
  return FromBits<T>((g.next() & m) | ((bias + g.below(21) - 10) << MantissaBits<T>()) | (static_cast<uint64_t>(g.below(2)) << (sizeof(T) * 8 - 1)));
}
template <typename T> T SmallInt(Rng& g, int lim) { return ConvertScalarTo<T>(static_cast<float>(static_cast<int>(g.below(static_cast<uint32_t>(2 * lim + 1))) - lim)); }
template <typename T> void PutA(Bytes& c, Rng& g, size_t n, size_t r, int lim = 0) {
  for (size_t i = 0; i < n; ++i) {
    if constexpr (IsFloat<T>() || IsSpecialFloat<T>()) Put(c, lim ? SmallInt<T>(g, lim) : ModFloat<T>(g));
    else Put(c, FromBits<T>(IntOperand<T>(g, r, i)));
  }
}
template <class D> VFromD<D> At(D d, const Bytes& c, size_t off) { return InVec(d, c.data() + off); }

template <typename T> HWY_NOINLINE void Pairwise() {   // {bf,u,i}16
  using TW = MakeWide<T>;
  ForAllSizes<TW>([](auto dw) HWY_ATTR {
#if HWY_TARGET == HWY_SCALAR
    const Rebind<T, decltype(dw)> d;
#else
    const Repartition<T, decltype(dw)> d;
#endif
    const size_t N = Lanes(d), NW = Lanes(dw);
    Rng g(E().seed * 3 + N);
    E().cur = std::string("WidenMulPairwiseAdd ") + TName<T>();
    for (size_t r = 0; r < Reps(); ++r) {
      Bytes c; PutA<T>(c, g, N, r); PutA<T>(c, g, N, r + g.below(7));
      const auto a = At(d, c, 0), b = At(d, c, N * 2);
      Bytes o = c; OutVec(dw, WidenMulPairwiseAdd(dw, a, b), o);
      Rec("WidenMulPairwiseAdd", TName<T>(), o, X<T, TW>(N));
    }
    // sequences of accumulations; float operands are integers, so that sums are exact in any order
    E().cur = std::string("ReorderWidenMulAccumulate ") + TName<T>();
    for (size_t r = 0; r < Reps(); ++r) {
      const size_t steps = 1 + g.below(3);
      const bool zero = r % 2 == 0;
      Bytes c; 
      for (size_t i = 0; i < NW; ++i) { if (zero) Put(c, ConvertScalarTo<TW>(0)); else if constexpr (IsFloat<TW>()) Put(c, SmallInt<TW>(g, 1000)); else Put(c, FromBits<TW>(RandomBits<TW>(g))); }
      VFromD<decltype(dw)> sum0 = At(dw, c, 0), sum1 = Zero(dw);
      for (size_t s = 0; s < steps; ++s) {
        const size_t off = c.size();
        PutA<T>(c, g, N, r / 2, 255); PutA<T>(c, g, N, r / 2 + g.below(7), 255);
        sum0 = ReorderWidenMulAccumulate(dw, At(d, c, off), At(d, c, off + N * 2), sum0, sum1);
      }
      if (zero) { OutVec(dw, RearrangeToOddPlusEven(sum0, sum1), c); Rec("RearrangeToOddPlusEven", TName<T>(), c, X<T, TW>(N, int(steps))); }
      else { OutVec(dw, sum0, c); OutVec(dw, sum1, c); Rec("ReorderWidenMulAccumulate", TName<T>(), c, X<T, TW>(N, int(steps))); }
    }
  });
}
#if HWY_TARGET != HWY_SCALAR
template <typename TA, typename TB, typename TW> HWY_NOINLINE void Quad() {
  ForAllSizes<TW>([&](auto dw) HWY_ATTR {
    const Repartition<TA, decltype(dw)> da; const Repartition<TB, decltype(dw)> db;
    const size_t N = Lanes(da);
    Rng g(E().seed * 5 + N + sizeof(TA));
    E().cur = std::string("SumOfMulQuadAccumulate ") + TName<TA>();
    for (size_t r = 0; r < Reps(); ++r) {
      Bytes c; PutA<TA>(c, g, N, r); PutA<TB>(c, g, N, r + g.below(7)); PutA<TW>(c, g, Lanes(dw), r + 3);
      OutVec(dw, SumOfMulQuadAccumulate(dw, At(da, c, 0), At(db, c, N * sizeof(TA)), At(dw, c, 2 * N * sizeof(TA))), c);
      Rec("SumOfMulQuadAccumulate", TName<TA>(), c, X<TB, TW>(N));
    }
  });
}
#define QUAD(TA, TB, TW) Quad<TA, TB, TW>()
HWY_NOINLINE void Sat() {
  ForAllSizes<int16_t>([](auto dw) HWY_ATTR {
    const Repartition<uint8_t, decltype(dw)> du; const Repartition<int8_t, decltype(dw)> di;
    const size_t N = Lanes(du);
    Rng g(E().seed * 7 + N);
    E().cur = "SatWidenMulPairwiseAdd";
    for (size_t r = 0; r < 2 * Reps(); ++r) {
      Bytes c; PutA<uint8_t>(c, g, N, r); PutA<int8_t>(c, g, N, r + g.below(7));
      OutVec(dw, SatWidenMulPairwiseAdd(dw, At(du, c, 0), At(di, c, N)), c);
      Rec("SatWidenMulPairwiseAdd", "u8", c, X<int8_t, int16_t>(N));
    }
  });
  ForAllSizes<int32_t>([](auto dw) HWY_ATTR {
    const Repartition<int16_t, decltype(dw)> d;
    const size_t N = Lanes(d);
    Rng g(E().seed * 11 + N);
    E().cur = "SatWidenMulPairwiseAccumulate";
    for (size_t r = 0; r < 2 * Reps(); ++r) {
      Bytes c; PutA<int16_t>(c, g, N, r); PutA<int16_t>(c, g, N, g.below(3) ? r : r + g.below(7)); PutA<int32_t>(c, g, Lanes(dw), r / 7);
      OutVec(dw, SatWidenMulPairwiseAccumulate(dw, At(d, c, 0), At(d, c, N * 2), At(dw, c, N * 4)), c);
      Rec("SatWidenMulPairwiseAccumulate", "i16", c, X<int16_t, int32_t>(N));
    }
  });
}
template <typename T> HWY_NOINLINE void Acc() {
  using TW = MakeWide<T>;
  ForAllSizes<TW>([](auto dw) HWY_ATTR {
    const RepartitionToNarrow<decltype(dw)> d;
    const size_t N = Lanes(d);
    Rng g(E().seed * 13 + N + sizeof(T));
    E().cur = std::string("WidenMulAccumulate ") + TName<T>();
    for (size_t r = 0; r < Reps() / 2; ++r) {
      Bytes c; PutA<T>(c, g, N, r); PutA<T>(c, g, N, r + g.below(7)); PutA<TW>(c, g, N, r + 3);
      const size_t z = sizeof(T);
      VFromD<decltype(dw)> hi = At(dw, c, 2 * N * z + N * z);
      const auto lo = WidenMulAccumulate(dw, At(d, c, 0), At(d, c, N * z), At(dw, c, 2 * N * z), hi);
      OutVec(dw, lo, c); OutVec(dw, hi, c);
      Rec("WidenMulAccumulate", TName<T>(), c, X<T, TW>(N));
      // even/odd products of the whole vector
      { Bytes e(c.begin(), c.begin() + static_cast<long>(2 * N * z)); const auto a = At(d, e, 0), b = At(d, e, N * z);
        OutVec(dw, MulEven(a, b), e); OutVec(dw, MulOdd(a, b), e); Rec("MulEvenOdd", TName<T>(), e, X<T, TW>(N)); }
    }
  });
}
HWY_NOINLINE void EvenOddBF() {
  ForAllSizes<float>([](auto dw) HWY_ATTR {
    const Repartition<bfloat16_t, decltype(dw)> d;
    const size_t N = Lanes(d);
    Rng g(E().seed * 17 + N);
    E().cur = "MulEvenAdd";
    for (size_t r = 0; r < Reps(); ++r) {
      Bytes c; PutA<bfloat16_t>(c, g, N, r); PutA<bfloat16_t>(c, g, N, r); PutA<float>(c, g, Lanes(dw), r);
      const auto a = At(d, c, 0), b = At(d, c, N * 2); const auto s = At(dw, c, N * 4);
      OutVec(dw, MulEvenAdd(dw, a, b, s), c); OutVec(dw, MulOddAdd(dw, a, b, s), c);
      Rec("MulEvenOddAdd", "bf16", c, X<bfloat16_t, float>(N));
    }
  });
}
#endif
HWY_NOINLINE void Fixed() {
  ForAllSizes<int32_t>([](auto dw) HWY_ATTR {
    const Rebind<int16_t, decltype(dw)> d;
    const size_t N = Lanes(d);
    Rng g(E().seed * 19 + N);
    E().cur = "SatWidenMulAccumFixedPoint";
    for (size_t r = 0; r < 2 * Reps(); ++r) {
      Bytes c; PutA<int16_t>(c, g, N, r); PutA<int16_t>(c, g, N, g.below(3) ? r : r + g.below(7)); PutA<int32_t>(c, g, N, r / 7);
      OutVec(dw, SatWidenMulAccumFixedPoint(dw, At(d, c, 0), At(d, c, N * 2), At(dw, c, N * 4)), c);
      Rec("SatWidenMulAccumFixedPoint", "i16", c, X<int16_t, int32_t>(N));
    }
  });
}
void RunAll() {
#if VPART == 0
#if HWY_TARGET != HWY_SCALAR
  Pairwise<uint16_t>();
#endif
  Pairwise<int16_t>(); Pairwise<bfloat16_t>(); Fixed();
#elif HWY_TARGET != HWY_SCALAR
#if VPART == 1
  QUAD(uint8_t, uint8_t, uint32_t); QUAD(int8_t, int8_t, int32_t); QUAD(uint8_t, int8_t, int32_t);
  QUAD(int16_t, int16_t, int64_t); QUAD(uint16_t, uint16_t, uint64_t); Sat(); EvenOddBF();
#else
  Acc<uint8_t>(); Acc<int8_t>(); Acc<uint16_t>(); Acc<int16_t>(); Acc<uint32_t>(); Acc<int32_t>();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::RunAll)
