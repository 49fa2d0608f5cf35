// P32: floating-point arithmetic, rounding, classification and comparison.
#include "simd/floats.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
size_t Reps() { return E().thorough ? 12000 : 1200; }
using Ops = std::vector<std::vector<uint64_t>>;
template <typename T> struct FT { static constexpr int kM = MantissaBits<T>(); static constexpr uint64_t kMax = static_cast<uint64_t>(MaxExponentField<T>()), kSign = 1ull << (sizeof(T) * 8 - 1); };
template <typename T> uint64_t WithExp(uint64_t b, int64_t e) {   // replaces the exponent field, clamped
  const int64_t m = static_cast<int64_t>(FT<T>::kMax);
  const uint64_t f = static_cast<uint64_t>(e < 0 ? 0 : e > m ? m : e);
  return (b & ~(FT<T>::kMax << FT<T>::kM)) | (f << FT<T>::kM);
}
// Pairs and triples: boundary encodings, random values, neighbours, and values whose product, quotient or sum is at
// the ends of the range or next to a midpoint.
template <typename T> Ops In(int arity, uint64_t salt = 0) {
  Ops r(static_cast<size_t>(arity));
  Rng g(E().seed * 77 + sizeof(T) * 5 + static_cast<uint64_t>(arity) + salt * 1000);
  const std::vector<uint64_t> e = FloatEdges<T>();
  std::vector<uint64_t> ints; AddIntegers<T>(ints);
  const uint64_t kM = FT<T>::kM, mask = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T) % 64)) - 1;
  const int64_t bias = static_cast<int64_t>(FT<T>::kMax) / 2;
  auto edge = [&] { return e[g.below(static_cast<uint32_t>(e.size()))]; };
  auto add = [&](uint64_t a, uint64_t b, uint64_t c) { r[0].push_back(a & mask); if (arity > 1) r[1].push_back(b & mask); if (arity > 2) r[2].push_back(c & mask); };
  if (arity == 1) { for (uint64_t a : e) add(a, 0, 0); for (uint64_t a : ints) add(a, 0, 0); }
  for (size_t i = 0; i < Reps(); ++i) {
    const uint64_t a = RandomFloat<T>(g), b = RandomFloat<T>(g), c = RandomFloat<T>(g);
    add(a, b, c);
    add(edge(), edge(), edge());
    if (arity == 1) continue;
    const uint64_t s = g.below(2) ? FT<T>::kSign : 0;
    const int64_t ea = static_cast<int64_t>((a >> kM) & FT<T>::kMax);
    switch (i % 8) {
      case 0: add(a, (a + g.below(5) - 2) ^ s, c); break;                                                 // neighbours, cancellation
      case 1: add(a, WithExp<T>(b, ea + static_cast<int64_t>(g.below(6)) - 3), (a ^ s) + g.below(3)); break;
      case 2: add(a, WithExp<T>(b, ea + (g.below(2) ? 1 : -1) * static_cast<int64_t>(kM + g.below(4))), c); break;   // half an ulp apart
      case 3: add(a, WithExp<T>(b, bias - ea + static_cast<int64_t>(g.below(static_cast<uint32_t>(kM + 4))) - static_cast<int64_t>(kM) + 1), WithExp<T>(c, g.below(4))); break;   // tiny product
      case 4: add(a, WithExp<T>(b, 2 * bias + bias - ea + static_cast<int64_t>(g.below(4)) - 2), WithExp<T>(c, 2 * bias + static_cast<int64_t>(g.below(2)))); break;   // huge product
      case 5: add(a, WithExp<T>(b, ea + bias - static_cast<int64_t>(g.below(static_cast<uint32_t>(kM + 4))) + 2), c); break;   // tiny quotient
      case 6: add(a, WithExp<T>(b, ea - bias + static_cast<int64_t>(g.below(4)) - 2), c); break;           // huge quotient
      default: add(ints[g.below(static_cast<uint32_t>(ints.size()))], ints[g.below(static_cast<uint32_t>(ints.size()))], edge());
    }
  }
  return r;
}
// Masks are observed as all-zero or all-one lanes.
template <class D, class M> VFromD<RebindToUnsigned<D>> MV(D d, M m) { const RebindToUnsigned<D> du; return VecFromMask(du, RebindMask(du, m)); }

// As LaneWise, with the lane's parity recorded ("p": 0 even, 1 odd).
template <typename T, int kArity, class F> HWY_NOINLINE void Parity(const char* op, const Ops& in, const F& f) {
  E().cur = std::string(op) + " " + TName<T>();
  const size_t n = in[0].size() & ~size_t{63};
  HWY_ALIGN T buf[64]; HWY_ALIGN T out[64];
  ForSizes<T>([&](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    for (size_t at = 0; at < n; at += N) {
      const auto a = LoadBits(d, in[0], at, buf); const auto b = LoadBits(d, in[1], at, buf);
      if constexpr (kArity == 2) StoreU(f(d, a, b), d, out); else StoreU(f(d, a, b, LoadBits(d, in[2], at, buf)), d, out);
      for (size_t i = 0; i < N; ++i) {
        Bytes c;
        for (size_t k = 0; k < kArity; ++k) Put(c, FromBits<T>(in[k][at + i]));
        Put(c, out[i]);
        Rec(op, TName<T>(), c, std::string("\"p\":") + (i % 2 ? "1" : "0"));
      }
    }
  });
}
#define L1(OP, TO, CALL) LaneWise<T, TO, 1>(OP, i1, [](auto d, auto a) HWY_ATTR { (void)d; return CALL; })
#define L2(OP, TO, CALL) LaneWise<T, TO, 2>(OP, i2, [](auto d, auto a, auto b) HWY_ATTR { (void)d; return CALL; })
#define L3(OP, TO, CALL) LaneWise<T, TO, 3>(OP, i3, [](auto d, auto a, auto b, auto c) HWY_ATTR { (void)d; return CALL; })
template <typename T> HWY_NOINLINE void Arith() {
  const Ops i1 = In<T>(1), i2 = In<T>(2), i3 = In<T>(3);
  L2("Add", T, Add(a, b)); L2("Sub", T, Sub(a, b)); L2("Mul", T, Mul(a, b)); L2("Div", T, Div(a, b)); L1("Sqrt", T, Sqrt(a));
  L1("Neg", T, Neg(a)); L1("Abs", T, Abs(a)); L2("AbsDiff", T, AbsDiff(a, b));
  L2("Min", T, Min(a, b)); L2("Max", T, Max(a, b)); L2("MinMagnitude", T, MinMagnitude(a, b)); L2("MaxMagnitude", T, MaxMagnitude(a, b));
  L3("Clamp", T, Clamp(a, Min(b, c), Max(b, c)));
  L2("CopySign", T, CopySign(a, b)); L2("CopySignToAbs", T, CopySignToAbs(Abs(a), b));
  L1("ZeroIfNegative", T, ZeroIfNegative(a)); L3("IfNegativeThenElse", T, IfNegativeThenElse(a, b, c));
  L2("IfNegativeThenElseZero", T, IfNegativeThenElseZero(a, b)); L2("IfNegativeThenZeroElse", T, IfNegativeThenZeroElse(a, b));
  L2("IfNegativeThenNegOrUndefIfZero", T, IfNegativeThenNegOrUndefIfZero(a, b));
}
template <typename T> HWY_NOINLINE void Fma() {
  const Ops i3 = In<T>(3), i2 = In<T>(2);
  L3("MulAdd", T, MulAdd(a, b, c)); L3("NegMulAdd", T, NegMulAdd(a, b, c)); L3("MulSub", T, MulSub(a, b, c)); L3("NegMulSub", T, NegMulSub(a, b, c));
  Parity<T, 2>("AddSub", i2, [](auto, auto a, auto b) HWY_ATTR { return AddSub(a, b); });
  Parity<T, 3>("MulAddSub", i3, [](auto, auto a, auto b, auto c) HWY_ATTR { return MulAddSub(a, b, c); });
  Parity<T, 3>("MulSubAdd", i3, [](auto, auto a, auto b, auto c) HWY_ATTR { return MulSubAdd(a, b, c); });
}
template <typename T> HWY_NOINLINE void Rounding() {
  using TU = MakeUnsigned<T>;
  const Ops i1 = In<T>(1, 1), i2 = In<T>(2, 1);
  L1("Round", T, Round(a)); L1("Trunc", T, Trunc(a)); L1("Ceil", T, Ceil(a)); L1("Floor", T, Floor(a)); L2("MulRound", T, MulRound(a, b));
  L1("IsNaN", TU, MV(d, IsNaN(a))); L1("IsInf", TU, MV(d, IsInf(a))); L1("IsFinite", TU, MV(d, IsFinite(a))); L2("IsEitherNaN", TU, MV(d, IsEitherNaN(a, b)));
  L2("Eq", TU, MV(d, Eq(a, b))); L2("Ne", TU, MV(d, Ne(a, b))); L2("Lt", TU, MV(d, Lt(a, b))); L2("Le", TU, MV(d, Le(a, b))); L2("Gt", TU, MV(d, Gt(a, b))); L2("Ge", TU, MV(d, Ge(a, b)));
}
template <typename T> HWY_NOINLINE void Exponents() {
  using TU = MakeUnsigned<T>; using TI = MakeSigned<T>;
  const Ops i1 = In<T>(1, 2), i2 = In<T>(2, 2);
  L1("GetExponent", T, GetExponent(a)); L1("GetBiasedExponent", TU, GetBiasedExponent(a));
  L1("ApproximateReciprocal", T, ApproximateReciprocal(a)); L1("ApproximateReciprocalSqrt", T, ApproximateReciprocalSqrt(a));
  L2("MulByFloorPow2", T, MulByFloorPow2(a, b));
  // Exponents: every interesting distance, and any integer.
  Ops ip = i2; Rng g(E().seed + 9);
  for (auto& b : ip[1]) {
    const int64_t range = static_cast<int64_t>(FT<T>::kMax) + 2 * FT<T>::kM;
    int64_t e = static_cast<int64_t>(g.below(static_cast<uint32_t>(2 * range))) - range;
    if (g.below(6) == 0) e = static_cast<int64_t>(RandomBits<TI>(g));
    if (g.below(40) == 0) e = g.below(2) ? LimitsMin<TI>() : LimitsMax<TI>();
    b = ToBits(static_cast<TI>(e));
  }
  for (size_t i = 0; i < ip[0].size(); i += 3) {   // results in the subnormal and the top range
    const int64_t ea = static_cast<int64_t>((ip[0][i] >> FT<T>::kM) & FT<T>::kMax);
    const int64_t e = g.below(3) ? 1 - ea - static_cast<int64_t>(g.below(FT<T>::kM + 3)) + 1 : static_cast<int64_t>(FT<T>::kMax) - 1 - ea + static_cast<int64_t>(g.below(4)) - 2;
    ip[1][i] = ToBits(static_cast<TI>(e));
  }
  LaneWise<T, T, 2>("MulByPow2", ip, [](auto d, auto a, auto b) HWY_ATTR { return MulByPow2(a, BitCast(RebindToSigned<decltype(d)>(), b)); });
  // The same exponents as fractional floats.
  Ops ifp = ip;
  for (auto& b : ifp[1]) { const double k = static_cast<double>(static_cast<int64_t>(FromBits<TI>(b))); b = ToBits(static_cast<T>(k + g.below(8) / 8.0)); }
  LaneWise<T, T, 2>("MulByFloorPow2", ifp, [](auto d, auto a, auto b) HWY_ATTR { (void)d; return MulByFloorPow2(a, b); });
}
// Complex products of small integers (every intermediate is exact): whole vectors.
template <typename T> HWY_NOINLINE void Complex() {
#if HWY_TARGET != HWY_SCALAR
  Rng g(E().seed + 31);
  HWY_ALIGN T a[64]; HWY_ALIGN T b[64]; HWY_ALIGN T c[64]; HWY_ALIGN T o[64];
  ForAllSizes<T>([&](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    if constexpr (HWY_MAX_LANES_D(decltype(d)) >= 2)
    for (size_t rep = 0; rep < (E().thorough ? 200u : 25u); ++rep) {
      for (size_t i = 0; i < N; ++i) { a[i] = ConvertScalarTo<T>(static_cast<int>(g.below(31)) - 15); b[i] = ConvertScalarTo<T>(static_cast<int>(g.below(31)) - 15); c[i] = ConvertScalarTo<T>(static_cast<int>(g.below(101)) - 50); }
      const auto va = LoadU(d, a), vb = LoadU(d, b), vc = LoadU(d, c);
      auto rec = [&](const char* op, VFromD<decltype(d)> r) HWY_ATTR {
        StoreU(r, d, o);
        Bytes x;
        for (const T* p : {a, b, c, o}) for (size_t i = 0; i < N; ++i) Put(x, p[i]);
        Rec(op, TName<T>(), x);
      };
      rec("ComplexConj", ComplexConj(va)); rec("MulComplex", MulComplex(va, vb)); rec("MulComplexConj", MulComplexConj(va, vb));
      rec("MulComplexAdd", MulComplexAdd(va, vb, vc)); rec("MulComplexConjAdd", MulComplexConjAdd(va, vb, vc));
    }
  });
#endif
}
template <typename T> void Part(int p) {
  if (p == 0) Arith<T>();
  if (p == 1) { Fma<T>(); Complex<T>(); }
  if (p == 2) Rounding<T>();
  if (p == 3) Exponents<T>();
}
void Main() {
#if VPART < 4
  Part<float>(VPART);
#elif VPART < 8
  Part<double>(VPART - 4);
#else
#if HWY_HAVE_FLOAT16
  for (int p = 0; p < 4; ++p) Part<float16_t>(p);
#endif
#endif
}
}}}
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
