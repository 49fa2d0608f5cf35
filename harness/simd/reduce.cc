// P33: reductions over all lanes, over groups of lanes, and pairwise sums.
#include "simd/convert.h"
#include "simd/floats.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
size_t Reps() { return E().thorough ? 250 : 26; }
std::string XN(size_t n, const std::string& more = "") { return "\"n\":" + std::to_string(n) + more; }
std::string XK(size_t n, std::initializer_list<int> k) { return "\"n\":" + std::to_string(n) + ",\"k\":" + JI(std::vector<int>(k)); }

// An operand lane of rep r, lane i.  Float lanes hold integers small enough that every sum is exact.
template <typename T> uint64_t Operand(Rng& g, size_t n, size_t r, size_t i) {
  if constexpr (!IsFloat<T>() && !IsSpecialFloat<T>()) {
    static const std::vector<uint64_t> e = Edges<T>();
    switch (r % 7) {
      case 0: return ToBits(static_cast<T>(i + 1));
      case 1: return ToBits(static_cast<T>(1ull << (i % (sizeof(T) * 8))));
      case 2: return e[g.below(static_cast<uint32_t>(e.size()))];
      case 3: return ToBits(i % 2 ? LimitsMax<T>() : LimitsMin<T>());
      case 4: return ToBits(g.below(2) ? LimitsMax<T>() : LimitsMin<T>());
      default: return RandomBits<T>(g);
    }
  } else {
    const int32_t lim = sizeof(T) == 2 ? static_cast<int32_t>(2047 / n) : 1 << 20;
    int32_t v = static_cast<int32_t>(g.below(static_cast<uint32_t>(2 * lim + 1))) - lim;
    if (r % 7 == 0) v = static_cast<int32_t>(i + 1);
    if (r % 7 == 1 && (sizeof(T) > 2 || n <= 8)) v = 1 << (i % 16);
    if (r % 7 == 2) v = g.below(2) ? lim : -lim;
    if (r % 7 == 3) v = 0;
    return ToBits(ConvertScalarTo<T>(static_cast<float>(v)));
  }
}
template <typename T> void PutLanes(Bytes& c, Rng& g, size_t n, size_t r) { for (size_t i = 0; i < n; ++i) Put(c, FromBits<T>(Operand<T>(g, n, r, i))); }
// Any non-NaN value for the order based reductions: mostly one distinguished extreme lane.
template <typename T> void PutOrd(Bytes& c, Rng& g, size_t n, size_t r) {
  if constexpr (IsFloat<T>() || IsSpecialFloat<T>()) {
    static std::vector<uint64_t> v = [] { std::vector<uint64_t> a = FloatValues<T>(E().seed + 5, 200), b; const uint64_t emax = static_cast<uint64_t>(MaxExponentField<T>());
      for (uint64_t x : a) if (((x >> MantissaBits<T>()) & emax) != emax || (x & ((1ull << MantissaBits<T>()) - 1)) == 0) b.push_back(x); return b; }();
    for (size_t i = 0; i < n; ++i) {
      if (r % 3 == 0) { Put(c, ConvertScalarTo<T>(i == (r / 3) % n ? (r % 2 ? -7.0f : 7.0f) : 1.0f)); continue; }
      Put(c, FromBits<T>(v[g.below(static_cast<uint32_t>(v.size()))]));
    }
  } else {
    for (size_t i = 0; i < n; ++i) {
      if (r % 3 == 0) { Put(c, static_cast<T>(i == (r / 3) % n ? (r % 2 ? LimitsMin<T>() : LimitsMax<T>()) : 5)); continue; }
      Put(c, FromBits<T>(Operand<T>(g, n, r, i)));
    }
  }
}

template <typename T> HWY_NOINLINE void Whole() {
  ForAllSizes<T>([](auto d) HWY_ATTR {
    Rng g(E().seed * 31 + Lanes(d) + sizeof(T));
    const size_t N = Lanes(d);
    for (size_t r = 0; r < Reps() + 2 * N; ++r) {
      Bytes a; PutLanes<T>(a, g, N, r);
      auto rec = [&](const char* op, const Bytes& in, auto v) HWY_ATTR { Bytes c = in; OutVec(d, v, c); Rec(op, TName<T>(), c, XN(N)); };
      auto recs = [&](const char* op, const Bytes& in, T v) { Bytes c = in; Put(c, v); Rec(op, TName<T>(), c, XN(N)); };
      E().cur = std::string("reduce ") + TName<T>();
      const auto va = InVec(d, a.data());
      rec("SumOfLanes", a, SumOfLanes(d, va));
      recs("ReduceSum", a, ReduceSum(d, va));
      Bytes o; PutOrd<T>(o, g, N, r);
      const auto vo = InVec(d, o.data());
      rec("MinOfLanes", o, MinOfLanes(d, vo)); rec("MaxOfLanes", o, MaxOfLanes(d, vo));
      recs("ReduceMin", o, ReduceMin(d, vo)); recs("ReduceMax", o, ReduceMax(d, vo));
      // masked: any lanes but not none
      Bytes mb; bool any = false; std::vector<T> ml(N);
      const uint32_t style = g.below(3); const size_t one = g.below(static_cast<uint32_t>(N));
      for (size_t i = 0; i < N; ++i) { const bool on = style == 0 ? i == one : style == 1 ? i != one : g.below(2) != 0; any |= on; ml[i] = ConvertScalarTo<T>(on ? 1.0f : 0.0f); mb.push_back(on); }
      if (!any) { mb[one] = 1; ml[one] = ConvertScalarTo<T>(1.0f); }
      const auto m = Ne(InVec(d, reinterpret_cast<const uint8_t*>(ml.data())), Zero(d));
      Bytes am = a; am.insert(am.end(), mb.begin(), mb.end());
      Bytes om = o; om.insert(om.end(), mb.begin(), mb.end());
      recs("MaskedReduceSum", am, MaskedReduceSum(d, m, va));
      recs("MaskedReduceMin", om, MaskedReduceMin(d, m, vo));
      recs("MaskedReduceMax", om, MaskedReduceMax(d, m, vo));
    }
  });
}
template <typename T> HWY_NOINLINE void Pairs() {
#if HWY_TARGET != HWY_SCALAR
  ForAllSizes<T>([](auto d) HWY_ATTR {
    if constexpr (MaxLanes(decltype(d)()) > 1) {
      Rng g(E().seed * 37 + Lanes(d) + sizeof(T));
      const size_t N = Lanes(d);
      for (size_t r = 0; r < Reps(); ++r) {
        Bytes c; PutLanes<T>(c, g, N, r); PutLanes<T>(c, g, N, r + g.below(3));
        const auto a = InVec(d, c.data()), b = InVec(d, c.data() + N * sizeof(T));
        E().cur = std::string("pairwise ") + TName<T>();
        { Bytes o = c; OutVec(d, PairwiseAdd(d, a, b), o); Rec("PairwiseAdd", TName<T>(), o, XN(N)); }
        { Bytes o = c; OutVec(d, PairwiseSub(d, a, b), o); Rec("PairwiseSub", TName<T>(), o, XN(N)); }
        if constexpr (MaxLanes(decltype(d)()) * sizeof(T) >= 16) {
          { Bytes o = c; OutVec(d, PairwiseAdd128(d, a, b), o); Rec("PairwiseAdd128", TName<T>(), o, XN(N)); }
          { Bytes o = c; OutVec(d, PairwiseSub128(d, a, b), o); Rec("PairwiseSub128", TName<T>(), o, XN(N)); }
        }
      }
    }
  });
#endif
}
// Sums of kG consecutive lanes.
template <typename T, size_t kG> HWY_NOINLINE void Groups() {
  ForAllSizes<T>([](auto d) HWY_ATTR {
#if HWY_TARGET == HWY_SCALAR
    constexpr bool kOk = kG == 2;
#else
    constexpr bool kOk = MaxLanes(decltype(d)()) >= kG;
#endif
    if constexpr (kOk) {
      Rng g(E().seed * 41 + Lanes(d) + sizeof(T));
      const size_t N = Lanes(d);
      for (size_t r = 0; r < Reps(); ++r) {
        Bytes c; PutLanes<T>(c, g, N, r);
        const auto a = InVec(d, c.data());
        E().cur = std::string("SumsOf ") + TName<T>();
        if constexpr (kG == 2) { const auto s = SumsOf2(a); OutVec(DFromV<decltype(s)>(), s, c); }
        if constexpr (kG == 4) { const auto s = SumsOf4(a); OutVec(DFromV<decltype(s)>(), s, c); }
        if constexpr (kG == 8) { const auto s = SumsOf8(a); OutVec(DFromV<decltype(s)>(), s, c); }
        Rec("SumsOf", TName<T>(), c, XK(N, {int(kG)}));
      }
    }
  });
}
#if HWY_TARGET != HWY_SCALAR
template <typename T, int kA, int kB> HWY_NOINLINE void Adj() {
  ForAllSizes<T>([](auto d) HWY_ATTR {
    constexpr int kMax = static_cast<int>(MaxLanes(decltype(d)()));
    if constexpr (kMax >= 4 && kA <= (kMax - 1) / 4 && kB <= (kMax - 1) / 4) {
      Rng g(E().seed * 43 + Lanes(d) + kA * 7 + kB);
      const size_t N = Lanes(d);
      const RepartitionToWide<decltype(d)> dw;
      for (size_t r = 0; r < Reps(); ++r) {
        Bytes c; PutLanes<T>(c, g, N, r + g.below(7)); PutLanes<T>(c, g, N, r);
        const auto a = InVec(d, c.data()), b = InVec(d, c.data() + N);
        E().cur = std::string("SumsOfAdjQuadAbsDiff ") + TName<T>();
        OutVec(dw, SumsOfAdjQuadAbsDiff<kA, kB>(a, b), c);
        Rec("SumsOfAdjQuadAbsDiff", TName<T>(), c, XK(N, {kA, kB}));
      }
    }
  });
}
template <typename T, int k3, int k2, int k1, int k0> HWY_NOINLINE void Shuf() {
  ForAllSizes<T>([](auto d) HWY_ATTR {
    if constexpr (MaxLanes(decltype(d)()) >= 4) {
      Rng g(E().seed * 47 + Lanes(d) + k3 * 64 + k2 * 16 + k1 * 4 + k0);
      const size_t N = Lanes(d);
      const RepartitionToWide<decltype(d)> dw;
      for (size_t r = 0; r < Reps(); ++r) {
        Bytes c; PutLanes<T>(c, g, N, r + g.below(7)); PutLanes<T>(c, g, N, r);
        const auto a = InVec(d, c.data()), b = InVec(d, c.data() + N);
        E().cur = std::string("SumsOfShuffledQuadAbsDiff ") + TName<T>();
        OutVec(dw, SumsOfShuffledQuadAbsDiff<k3, k2, k1, k0>(a, b), c);
        Rec("SumsOfShuffledQuadAbsDiff", TName<T>(), c, XK(N, {k3, k2, k1, k0}));
      }
    }
  });
}
template <typename T> HWY_NOINLINE void AbsDiffs() {
  ForAllSizes<T>([](auto d) HWY_ATTR {
    if constexpr (MaxLanes(decltype(d)()) >= 8) {
      Rng g(E().seed * 53 + Lanes(d));
      const size_t N = Lanes(d);
      for (size_t r = 0; r < Reps(); ++r) {
        Bytes c; PutLanes<T>(c, g, N, r + g.below(7)); PutLanes<T>(c, g, N, r);
        E().cur = std::string("SumsOf8AbsDiff ") + TName<T>();
        const auto s = SumsOf8AbsDiff(InVec(d, c.data()), InVec(d, c.data() + N));
        OutVec(DFromV<decltype(s)>(), s, c);
        Rec("SumsOf8AbsDiff", TName<T>(), c, XN(N));
      }
    }
  });
  Adj<T, 0, 0>(); Adj<T, 0, 1>(); Adj<T, 0, 2>(); Adj<T, 0, 3>(); Adj<T, 1, 0>(); Adj<T, 1, 1>(); Adj<T, 1, 2>(); Adj<T, 1, 3>();
  Shuf<T, 3, 2, 1, 0>(); Shuf<T, 0, 1, 2, 3>(); Shuf<T, 0, 0, 0, 0>(); Shuf<T, 3, 3, 3, 3>(); Shuf<T, 2, 0, 3, 1>(); Shuf<T, 1, 3, 0, 2>(); Shuf<T, 1, 1, 2, 0>(); Shuf<T, 2, 2, 0, 1>();
}
#endif
void RunAll() {
#if VPART == 0
  Whole<uint8_t>(); Whole<int8_t>(); Whole<uint16_t>(); Whole<int16_t>();
#elif VPART == 1
  Whole<uint32_t>(); Whole<int32_t>(); Whole<uint64_t>(); Whole<int64_t>();
#elif VPART == 2
  Whole<float>();
#if HWY_HAVE_FLOAT64
  Whole<double>();
#endif
#if HWY_HAVE_FLOAT16
  Whole<float16_t>();
#endif
  Groups<uint8_t, 2>(); Groups<int8_t, 2>(); Groups<uint16_t, 2>(); Groups<int16_t, 2>(); Groups<uint32_t, 2>(); Groups<int32_t, 2>(); Groups<float, 2>();
#if HWY_HAVE_FLOAT16
  Groups<float16_t, 2>();
#endif
  Groups<uint8_t, 4>(); Groups<int8_t, 4>(); Groups<uint16_t, 4>(); Groups<int16_t, 4>();
  Groups<uint8_t, 8>(); Groups<int8_t, 8>();
#elif VPART == 3
  Pairs<uint8_t>(); Pairs<int8_t>(); Pairs<uint16_t>(); Pairs<int16_t>(); Pairs<uint32_t>(); Pairs<int32_t>(); Pairs<uint64_t>(); Pairs<int64_t>(); Pairs<float>();
#if HWY_HAVE_FLOAT64
  Pairs<double>();
#endif
#if HWY_HAVE_FLOAT16
  Pairs<float16_t>();
#endif
#elif VPART == 4
#if HWY_TARGET != HWY_SCALAR
  AbsDiffs<uint8_t>(); AbsDiffs<int8_t>();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::RunAll)
