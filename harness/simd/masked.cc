// P35: masked arithmetic, shifts, comparisons and conversions.
#include "simd/convert.h"
#include "simd/floats.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
size_t Count() { return E().thorough ? 3000 : 320; }
template <typename T> struct In { std::vector<T> a, b, c, no; std::vector<uint8_t> m; };
enum Kind { kAny, kDivide, kShift };
template <typename T> T Value(Rng& g) {
  if constexpr (IsFloat<T>() || IsSpecialFloat<T>()) { static const std::vector<uint64_t> e = FloatEdges<T>(); return FromBits<T>(g.below(2) ? e[g.below(static_cast<uint32_t>(e.size()))] : RandomFloat<T>(g)); }
  else { static const std::vector<uint64_t> e = Edges<T>(); return FromBits<T>(g.below(2) ? e[g.below(static_cast<uint32_t>(e.size()))] : RandomBits<T>(g)); }
}
template <typename T> In<T> Make(Kind kind, uint64_t salt) {
  In<T> r; Rng g(E().seed * 101 + salt * 7 + sizeof(T));
  for (size_t i = 0; i < Count(); ++i) {
    T a = Value<T>(g), b = Value<T>(g), c = Value<T>(g); const T no = Value<T>(g);
    const bool m = (i / 64) % 5 == 3 ? false : (i / 64) % 5 == 4 ? true : g.below(2) != 0;
    if constexpr (!IsFloat<T>() && !IsSpecialFloat<T>()) {
      if (kind == kDivide && m) { if (b == 0) b = 3; if (IsSigned<T>() && a == LimitsMin<T>() && b == static_cast<T>(-1)) b = 1; }
      if (kind == kDivide && !m && g.below(2)) { b = static_cast<T>(g.below(2) ? 0 : -1); a = LimitsMin<T>(); }   // would trap
      if (kind == kShift && (m || g.below(2))) b = static_cast<T>(g.below(sizeof(T) * 8));
      if (kind == kShift && !m && !g.below(2)) b = static_cast<T>(g.below(sizeof(T) * 8));
    } else if (g.below(3) == 0) { b = FromBits<T>(ToBits(a) ^ g.below(3)); }
    if (g.below(8) == 0) b = kind == kAny ? a : b;
    r.a.push_back(a); r.b.push_back(b); r.c.push_back(c); r.no.push_back(no); r.m.push_back(m);
  }
  return r;
}
template <class D> VFromD<D> Get(D d, const std::vector<TFromD<D>>& v, size_t at) {
  std::vector<TFromD<D>> t(Lanes(d));
  for (size_t i = 0; i < t.size(); ++i) t[i] = v[(at + i) % v.size()];
  return InVec(d, reinterpret_cast<const uint8_t*>(t.data()));
}
template <class D> MFromD<D> GetMask(D d, const std::vector<uint8_t>& m, size_t at) {
  using TU = MakeUnsigned<TFromD<D>>;
  const RebindToUnsigned<D> du;
  std::vector<TU> t(Lanes(d));
  for (size_t i = 0; i < t.size(); ++i) t[i] = static_cast<TU>(m[(at + i) % m.size()] ? 1 : 0);
  return RebindMask(d, Ne(InVec(du, reinterpret_cast<const uint8_t*>(t.data())), Zero(du)));
}
template <class D, class M> VFromD<RebindToUnsigned<D>> MV(D d, M m) { const RebindToUnsigned<D> du; return VecFromMask(du, RebindMask(du, m)); }

// f(d, m, no, a, b, c) -> vector; recorded per lane: mask, no, operands, result.
template <typename T, class F> HWY_NOINLINE void Run(const char* op, const char* base, bool orNo, int arity, const In<T>& in, const F& f, int k = 0) {
  E().cur = std::string(op) + " " + TName<T>();
  const std::string x = std::string("\"b\":\"") + base + "\",\"f\":" + (orNo ? "1" : "0") + ",\"ar\":" + std::to_string(arity) + ",\"k\":" + std::to_string(k);
  std::vector<std::vector<uint64_t>> seen(in.a.size());
  ForAllSizes<T>([&](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    for (size_t at = 0; at < in.a.size(); at += N) {
      const auto v = f(d, GetMask(d, in.m, at), Get(d, in.no, at), Get(d, in.a, at), Get(d, in.b, at), Get(d, in.c, at));
      using TR = TFromV<decltype(v)>;
      Bytes out; OutVec(DFromV<decltype(v)>(), v, out);
      for (size_t i = 0; i < N && at + i < in.a.size(); ++i) {
        const size_t j = at + i;
        TR r; memcpy(&r, &out[i * sizeof(TR)], sizeof(TR));
        if (std::find(seen[j].begin(), seen[j].end(), ToBits(r)) != seen[j].end()) continue;
        seen[j].push_back(ToBits(r));
        Bytes c; c.push_back(in.m[j]); Put(c, in.no[j]); Put(c, in.a[j]); if (arity > 1) Put(c, in.b[j]); if (arity > 2) Put(c, in.c[j]); Put(c, r);
        Rec(op, TName<T>(), c, x);
      }
    }
  });
}
#define RUN(OP, BASE, ORNO, AR, IN, CALL) Run<T>(OP, BASE, ORNO, AR, IN, [](auto d, auto m, auto no, auto a, auto b, auto c) HWY_ATTR { (void)d; (void)no; (void)b; (void)c; return CALL; })
#define RUNK(OP, BASE, ORNO, AR, IN, K, CALL) Run<T>(OP, BASE, ORNO, AR, IN, [](auto d, auto m, auto no, auto a, auto b, auto c) HWY_ATTR { (void)d; (void)no; (void)b; (void)c; return CALL; }, K)

template <typename T> HWY_NOINLINE void Common() {
  const In<T> x = Make<T>(kAny, 1), dv = Make<T>(kDivide, 2);
  RUN("MaskedMinOr", "Min", 1, 2, x, MaskedMinOr(no, m, a, b)); RUN("MaskedMaxOr", "Max", 1, 2, x, MaskedMaxOr(no, m, a, b));
  RUN("MaskedAddOr", "Add", 1, 2, x, MaskedAddOr(no, m, a, b)); RUN("MaskedSubOr", "Sub", 1, 2, x, MaskedSubOr(no, m, a, b));
  RUN("MaskedMulOr", "Mul", 1, 2, x, MaskedMulOr(no, m, a, b)); RUN("MaskedDivOr", "Div", 1, 2, dv, MaskedDivOr(no, m, a, b));
  RUN("MaskedMulAddOr", "MulAdd", 1, 3, x, MaskedMulAddOr(no, m, a, b, c));
  RUN("MaskedMax", "Max", 0, 2, x, MaskedMax(m, a, b)); RUN("MaskedAdd", "Add", 0, 2, x, MaskedAdd(m, a, b)); RUN("MaskedSub", "Sub", 0, 2, x, MaskedSub(m, a, b));
  RUN("MaskedMul", "Mul", 0, 2, x, MaskedMul(m, a, b)); RUN("MaskedDiv", "Div", 0, 2, dv, MaskedDiv(m, a, b));
  RUN("MaskedMulAdd", "MulAdd", 0, 3, x, MaskedMulAdd(m, a, b, c)); RUN("MaskedNegMulAdd", "NegMulAdd", 0, 3, x, MaskedNegMulAdd(m, a, b, c));
  RUN("MaskedEq", "Eq", 0, 2, x, MV(d, MaskedEq(m, a, b))); RUN("MaskedNe", "Ne", 0, 2, x, MV(d, MaskedNe(m, a, b)));
  RUN("MaskedLt", "Lt", 0, 2, x, MV(d, MaskedLt(m, a, b))); RUN("MaskedGt", "Gt", 0, 2, x, MV(d, MaskedGt(m, a, b)));
  RUN("MaskedLe", "Le", 0, 2, x, MV(d, MaskedLe(m, a, b))); RUN("MaskedGe", "Ge", 0, 2, x, MV(d, MaskedGe(m, a, b)));
  // Set: the scalar is the same for all lanes of a call
  Rng g(E().seed + 9);
  for (int k = 0; k < 4; ++k) {
    const T s = Value<T>(g); In<T> y = x; for (T& e : y.a) e = s;
    Run<T>("MaskedSetOr", "Id", true, 1, y, [s](auto, auto m, auto no, auto, auto, auto) HWY_ATTR { return MaskedSetOr(no, m, s); });
    Run<T>("MaskedSet", "Id", false, 1, y, [s](auto d, auto m, auto, auto, auto, auto) HWY_ATTR { return MaskedSet(d, m, s); });
  }
}
template <typename T> HWY_NOINLINE void Ints() {
  const In<T> x = Make<T>(kAny, 3), dv = Make<T>(kDivide, 4), sh = Make<T>(kShift, 5);
  RUN("MaskedModOr", "Mod", 1, 2, dv, MaskedModOr(no, m, a, b));
  RUN("MaskedLeadingZeroCount", "LeadingZeroCount", 0, 1, x, MaskedLeadingZeroCount(m, a));
  RUN("MaskedOr", "Or", 0, 2, x, MaskedOr(m, a, b));
  RUN("MaskedShrOr", "Shr", 1, 2, sh, MaskedShrOr(no, m, a, b));
  constexpr int kB = static_cast<int>(sizeof(T) * 8);
  RUNK("MaskedShiftLeft", "ShiftLeft", 0, 1, x, 1, MaskedShiftLeft<1>(m, a)); RUNK("MaskedShiftLeft", "ShiftLeft", 0, 1, x, kB - 1, MaskedShiftLeft<kB - 1>(m, a));
  RUNK("MaskedShiftLeft", "ShiftLeft", 0, 1, x, 0, MaskedShiftLeft<0>(m, a)); RUNK("MaskedShiftRight", "ShiftRight", 0, 1, x, 0, MaskedShiftRight<0>(m, a));
  RUNK("MaskedShiftRight", "ShiftRight", 0, 1, x, kB / 2 + 1, MaskedShiftRight<kB / 2 + 1>(m, a)); RUNK("MaskedShiftRight", "ShiftRight", 0, 1, x, kB - 1, MaskedShiftRight<kB - 1>(m, a));
  RUNK("MaskedShiftRightOr", "ShiftRight", 1, 1, x, 3, MaskedShiftRightOr<3>(no, m, a)); RUNK("MaskedShiftRightOr", "ShiftRight", 1, 1, x, kB - 1, MaskedShiftRightOr<kB - 1>(no, m, a));
  if constexpr (IsSigned<T>()) { RUN("MaskedAbsOr", "Abs", 1, 1, x, MaskedAbsOr(no, m, a)); RUN("MaskedAbs", "Abs", 0, 1, x, MaskedAbs(m, a)); }
  if constexpr (sizeof(T) <= 2) {
    RUN("MaskedSatAddOr", "SaturatedAdd", 1, 2, x, MaskedSatAddOr(no, m, a, b)); RUN("MaskedSatSubOr", "SaturatedSub", 1, 2, x, MaskedSatSubOr(no, m, a, b));
    RUN("MaskedSaturatedAdd", "SaturatedAdd", 0, 2, x, MaskedSaturatedAdd(m, a, b)); RUN("MaskedSaturatedSub", "SaturatedSub", 0, 2, x, MaskedSaturatedSub(m, a, b));
  }
}
template <typename TF, typename TT> HWY_NOINLINE void Conv() {
  In<TF> in = Make<TF>(kAny, 8);
  Rng g(E().seed + sizeof(TF));
  if constexpr (IsFloat<TF>() || IsSpecialFloat<TF>()) {   // active lanes hold values that are representable
    static std::vector<uint64_t> w = [] { std::vector<uint64_t> v; std::vector<uint64_t> u; AddIntegers<TF>(u); const uint64_t emax = static_cast<uint64_t>(MaxExponentField<TF>()); for (uint64_t q : u) if (((q >> MantissaBits<TF>()) & emax) != emax) v.push_back(q); return v; }();
    for (size_t i = 0; i < in.a.size(); ++i) if (in.m[i]) in.a[i] = FromBits<TF>(w[g.below(static_cast<uint32_t>(w.size()))]);
  }
  using T = TF;
  Run<T>("MaskedConvertTo", TName<TT>(), false, 1, in, [](auto d, auto m, auto, auto a, auto, auto) HWY_ATTR {
    const Rebind<TT, decltype(d)> dt; return MaskedConvertTo(RebindMask(dt, m), dt, a); });
}
template <typename T> HWY_NOINLINE void Floats() {
  const In<T> x = Make<T>(kAny, 6);
  RUN("MaskedSqrtOr", "Sqrt", 1, 1, x, MaskedSqrtOr(no, m, a)); RUN("MaskedSqrt", "Sqrt", 0, 1, x, MaskedSqrt(m, a));
  RUN("MaskedIsNaN", "IsNaN", 0, 1, x, MV(d, MaskedIsNaN(m, a)));
  RUN("MaskedOr", "BitOr", 0, 2, x, MaskedOr(m, a, b));
  RUN("MaskedApproximateReciprocal", "ApproximateReciprocal", 0, 1, x, MaskedApproximateReciprocal(m, a));
  RUN("MaskedApproximateReciprocalSqrt", "ApproximateReciprocalSqrt", 0, 1, x, MaskedApproximateReciprocalSqrt(m, a));
  // complex: pairs of lanes with small integers; the mask is per lane
#if HWY_TARGET != HWY_SCALAR
  ForAllSizes<T>([](auto d) HWY_ATTR {
    if constexpr (MaxLanes(decltype(d)()) >= 2) {
      Rng g(E().seed * 9 + Lanes(d));
      const size_t N = Lanes(d);
      E().cur = "masked complex";
      for (size_t r = 0; r < Count() / N; ++r) {
        std::vector<T> v[4]; std::vector<uint8_t> mb;
        for (auto& w : v) for (size_t i = 0; i < N; ++i) w.push_back(ConvertScalarTo<T>(static_cast<float>(static_cast<int>(g.below(15)) - 7)));
        for (size_t i = 0; i < N; ++i) mb.push_back(g.below(2) != 0);
        const auto m = GetMask(d, mb, 0); const auto no = Get(d, v[0], 0), a = Get(d, v[1], 0), b = Get(d, v[2], 0), c = Get(d, v[3], 0);
        auto rec = [&](const char* op, const char* base, bool orNo, auto res) HWY_ATTR {
          Bytes out; OutVec(d, res, out);
          for (size_t i = 0; i < N; i += 2) {
            Bytes k; k.push_back(mb[i]); k.push_back(mb[i + 1]);
            for (auto& w : v) { Put(k, w[i]); Put(k, w[i + 1]); }
            k.insert(k.end(), out.begin() + static_cast<long>(i * sizeof(T)), out.begin() + static_cast<long>((i + 2) * sizeof(T)));
            Rec(op, TName<T>(), k, std::string("\"b\":\"") + base + "\",\"f\":" + (orNo ? "1" : "0") + ",\"ar\":9,\"k\":0");
          }
        };
        rec("MaskedMulComplexOr", "MulComplex", true, MaskedMulComplexOr(no, m, a, b));
        rec("MaskedMulComplexConj", "MulComplexConj", false, MaskedMulComplexConj(m, a, b));
        rec("MaskedMulComplexConjAdd", "MulComplexConjAdd", false, MaskedMulComplexConjAdd(m, a, b, c));
      }
    }
  });
#endif
}
HWY_NOINLINE void Wide() {
#if HWY_TARGET != HWY_SCALAR
  auto run = [](auto tag) HWY_ATTR {
    using TN = decltype(tag); using TW = MakeWide<TN>;
    ForAllSizes<TW>([](auto dw) HWY_ATTR {
      const Repartition<TN, decltype(dw)> d;
      Rng g(E().seed * 9 + Lanes(d));
      const size_t N = Lanes(d), NW = Lanes(dw);
      E().cur = "MaskedWidenMulPairwiseAdd";
      for (size_t r = 0; r < Count() / NW; ++r) {
        std::vector<TN> a, b; std::vector<uint8_t> mb;
        for (size_t i = 0; i < N; ++i) {
          if constexpr (IsSpecialFloat<TN>()) { a.push_back(ConvertScalarTo<TN>(static_cast<float>(static_cast<int>(g.below(255)) - 127))); b.push_back(ConvertScalarTo<TN>(static_cast<float>(static_cast<int>(g.below(255)) - 127))); }
          else { a.push_back(Value<TN>(g)); b.push_back(Value<TN>(g)); }
        }
        for (size_t i = 0; i < NW; ++i) mb.push_back(g.below(2) != 0);
        Bytes out; OutVec(dw, MaskedWidenMulPairwiseAdd(dw, GetMask(dw, mb, 0), Get(d, a, 0), Get(d, b, 0)), out);
        for (size_t i = 0; i < NW; ++i) {
          Bytes k; k.push_back(mb[i]); Put(k, a[2 * i]); Put(k, a[2 * i + 1]); Put(k, b[2 * i]); Put(k, b[2 * i + 1]);
          k.insert(k.end(), out.begin() + static_cast<long>(i * sizeof(TW)), out.begin() + static_cast<long>((i + 1) * sizeof(TW)));
          Rec("MaskedWidenMulPairwiseAdd", TName<TN>(), k, std::string("\"b\":\"") + TName<TW>() + "\",\"f\":0,\"ar\":8,\"k\":0");
        }
      }
    });
  };
  run(int16_t()); run(uint16_t()); run(bfloat16_t());
#endif
}
HWY_NOINLINE void Fixed() {
  using T = int16_t;
  In<T> x = Make<T>(kAny, 7);
  for (size_t i = 0; i < x.a.size(); ++i) if (x.m[i] && x.a[i] == -32768 && x.b[i] == -32768) x.b[i] = 32767;
  RUN("MaskedMulFixedPoint15", "MulFixedPoint15", 0, 2, x, MaskedMulFixedPoint15(m, a, b));
}
void RunAll() {
#if VPART == 0
  Common<uint8_t>(); Common<int8_t>(); Common<uint16_t>();
#elif VPART == 1
  Common<int16_t>(); Common<uint32_t>(); Common<int32_t>();
#elif VPART == 2
  Common<uint64_t>(); Common<int64_t>(); Common<float>();
#elif VPART == 3
  Ints<uint8_t>(); Ints<int8_t>(); Ints<uint16_t>(); Ints<int16_t>();
#elif VPART == 4
  Ints<uint32_t>(); Ints<int32_t>(); Ints<uint64_t>(); Ints<int64_t>();
#elif VPART == 5
  Floats<float>();
#if HWY_HAVE_FLOAT64
  Floats<double>(); Common<double>();
#endif
#elif VPART == 6
#if HWY_HAVE_FLOAT16
  Floats<float16_t>(); Common<float16_t>(); Conv<float16_t, int16_t>(); Conv<int16_t, float16_t>(); Conv<uint16_t, float16_t>();
#endif
  Conv<float, int32_t>(); Conv<int32_t, float>(); Conv<uint32_t, float>();
#if HWY_HAVE_FLOAT64
  Conv<double, int64_t>(); Conv<int64_t, double>(); Conv<uint64_t, double>();
#endif
  Fixed(); Wide();
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::RunAll)
