// P41: the vector math functions.
#include "simd/floats.h"
#include <float.h>
#include "hwy/contrib/math/math-inl.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
using Ops = std::vector<std::vector<uint64_t>>;
// Ordinals: signed distance from zero in representable numbers.
template <typename T> int64_t Ord(T v) { const uint64_t m = ToBits(v) & ~(1ull << (sizeof(T) * 8 - 1)); return ToBits(v) >> (sizeof(T) * 8 - 1) ? -static_cast<int64_t>(m) : static_cast<int64_t>(m); }
template <typename T> uint64_t FromOrd(int64_t o) { return o < 0 ? static_cast<uint64_t>(-o) | (1ull << (sizeof(T) * 8 - 1)) : static_cast<uint64_t>(o); }
size_t Reps() { return E().thorough ? 2400 : 320; }

// Arguments in [lo, hi]: the ends, and values uniform in the ordinals and in the number line, with few significant
// bits, around multiples of pi/4, small integers and halves, powers of two and multiples of ln 2.
template <typename T> Ops In(T lo, T hi, uint64_t salt) {
  Ops r(1);
  Rng g(E().seed * 131 + salt * 7 + sizeof(T));
  const int64_t a = Ord(lo), b = Ord(hi);
  auto ord = [&](int64_t o) { r[0].push_back(FromOrd<T>(o < a ? a : o > b ? b : o)); };
  auto val = [&](double v) { if (v > static_cast<double>(hi)) v = static_cast<double>(hi); if (v < static_cast<double>(lo)) v = static_cast<double>(lo); ord(Ord(static_cast<T>(v))); };
  auto unit = [&] { return static_cast<double>(g.next() >> 11) * 0x1p-53; };
  for (int64_t k = 0; k < 3; ++k) { ord(a + k); ord(b - k); ord(k); ord(-k); }
  for (double k : {0.25, 0.5, 1.0, 2.0, 0.1, 3.0, 10.0, 0.70710678118654752, 1.4142135623730951, 0.41421356237309503, 2.414213562373095}) for (int64_t s : {1, -1}) for (int64_t j : {-1, 0, 1}) ord(s * (Ord(static_cast<T>(k)) + j));
  for (size_t i = 0; i < Reps(); ++i) {
    const int64_t near = static_cast<int64_t>(g.below(9)) - 4;
    switch (i % 8) {
      case 0: case 1: ord(a + static_cast<int64_t>((static_cast<unsigned __int128>(g.next()) * (static_cast<uint64_t>(b - a) + 1)) >> 64)); break;
      case 2: { const double L = static_cast<double>(lo) < -1000 ? -1000 : static_cast<double>(lo), H = static_cast<double>(hi) > 1000 ? 1000 : static_cast<double>(hi); val(L + unit() * (H - L)); break; }
      case 3: { const double L = static_cast<double>(lo) < -3 ? -3 : static_cast<double>(lo), H = static_cast<double>(hi) > 3 ? 3 : static_cast<double>(hi); val(L + unit() * (H - L)); break; }
      case 4: { const int lim = g.below(2) ? 20 : g.below(2) ? 400 : 49000; ord(Ord(static_cast<T>((static_cast<int>(g.below(static_cast<uint32_t>(2 * lim + 1))) - lim) * 0.78539816339744830962)) + near); break; }
      case 5: ord(Ord(static_cast<T>((static_cast<int>(g.below(81)) - 40) * 0.5)) + near); break;
      case 6: { const double p = ldexp(1.0, static_cast<int>(g.below(60)) - 50); ord(Ord(static_cast<T>(g.below(2) ? p : -p)) + near * static_cast<int64_t>(g.below(3))); break; }
      default: ord(Ord(static_cast<T>((static_cast<int>(g.below(401)) - 200) * 0.34657359027997264)) + near); break;   // ln(2) / 2
    }
  }
  Mix(r[0], E().seed + salt);
  return r;
}
// Pairs, including special values.
template <typename T> Ops In2(uint64_t salt) {
  Ops r(2);
  Rng g(E().seed * 137 + salt * 11 + sizeof(T));
  auto add = [&](uint64_t a, uint64_t b) { r[0].push_back(a); r[1].push_back(b); };
  const uint64_t sign = 1ull << (sizeof(T) * 8 - 1), inf = static_cast<uint64_t>(MaxExponentField<T>()) << MantissaBits<T>();
  std::vector<uint64_t> sp = {0, 1, ToBits(static_cast<T>(1)), ToBits(static_cast<T>(3)), inf - 1, inf, inf + 1, inf + (inf - 1) % (1ull << MantissaBits<T>()), uint64_t{1} << MantissaBits<T>()};
  for (uint64_t a : sp) for (uint64_t b : sp) for (int s = 0; s < 4; ++s) add(a | (s & 1 ? sign : 0), b | (s & 2 ? sign : 0));
  const std::vector<uint64_t> e = FloatEdges<T>();
  const int64_t kM = MantissaBits<T>(), kMax = static_cast<int64_t>(MaxExponentField<T>());
  for (size_t i = 0; i < 2 * Reps(); ++i) {
    const uint64_t a = RandomFloat<T>(g); uint64_t b = RandomFloat<T>(g);
    switch (i % 4) {
      case 0: break;
      case 1: { int64_t x = ((static_cast<int64_t>(a) >> kM) & kMax) + static_cast<int64_t>(g.below(static_cast<uint32_t>(2 * kM + 9))) - kM - 4; x = x < 0 ? 0 : x >= kMax ? kMax - 1 : x;
                b = (b & ~(static_cast<uint64_t>(kMax) << kM)) | (static_cast<uint64_t>(x) << kM); break; }
      case 2: { int64_t x = ((static_cast<int64_t>(a) >> kM) & kMax) + static_cast<int64_t>(g.below(5)) - 2; x = x < 0 ? 0 : x >= kMax ? kMax - 1 : x;
                b = (b & ~(static_cast<uint64_t>(kMax) << kM)) | (static_cast<uint64_t>(x) << kM); break; }
      default: b = e[g.below(static_cast<uint32_t>(e.size()))];
    }
    add(a, b);
  }
  return r;
}
#define M1(F, LO, HI) LaneWise<T, T, 1>(#F, In<T>(static_cast<T>(LO), static_cast<T>(HI), ++salt), [](auto d, auto x) HWY_ATTR { return F(d, x); })
template <typename T, int kPart> HWY_NOINLINE void All() {
  constexpr bool f32 = sizeof(T) == 4;
  const T mx = HighestValue<T>(), tiny = FromBits<T>(1), below1 = FromBits<T>(ToBits(static_cast<T>(1)) - 1);
  uint64_t salt = kPart * 100;
  if constexpr (kPart == 0) {
    M1(Acos, -1, 1); M1(Asin, -1, 1); M1(Atan, -mx, mx); M1(Atanh, -below1, below1); M1(Acosh, 1, mx); M1(Asinh, -mx, mx);
    const Ops i2 = In2<T>(1), i3 = In2<T>(2);
    LaneWise<T, T, 2>("Atan2", i2, [](auto d, auto y, auto x) HWY_ATTR { return Atan2(d, y, x); });
    LaneWise<T, T, 2>("Hypot", i3, [](auto d, auto a, auto b) HWY_ATTR { return Hypot(d, a, b); });
  } else {
    M1(Cos, -39000, 39000); M1(Sin, -39000, 39000);
    LaneWise<T, T, 1>("SinCosS", In<T>(-39000, 39000, ++salt), [](auto d, auto x) HWY_ATTR { auto s = x, c = x; SinCos(d, x, s, c); return s; });
    LaneWise<T, T, 1>("SinCosC", In<T>(-39000, 39000, ++salt), [](auto d, auto x) HWY_ATTR { auto s = x, c = x; SinCos(d, x, s, c); return c; });
    M1(Exp, -mx, (f32 ? 104 : 706)); M1(Exp2, -mx, (f32 ? 128 : 1024)); M1(Expm1, -mx, (f32 ? 104 : 706));
    M1(Log, tiny, mx); M1(Log10, tiny, mx); M1(Log1p, 0, mx); M1(Log2, tiny, mx);
    M1(Sinh, (f32 ? -88.7228 : -709), (f32 ? 88.7228 : 709)); M1(Tanh, -mx, mx);
  }
}
void Main() {
#if VPART < 2
  All<float, VPART>();
#elif HWY_HAVE_FLOAT64
  All<double, VPART - 2>();
#endif
}
}}}
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
