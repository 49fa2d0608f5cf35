// P21: dot products of integers (scaled by powers of two) of which all partial sums are representable.
#include <math.h>
#include "simd/common.h"
#include "simd/arena.h"
#include "hwy/contrib/dot/dot-inl.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
template <typename T> T Num(long v, int e) { return ConvertScalarTo<T>(ldexp(static_cast<double>(v), e)); }
template <> int16_t Num<int16_t>(long v, int) { return static_cast<int16_t>(v); }
template <int kA, class D, typename TA, typename TB> HWY_NOINLINE void One(D d, size_t n, long bound, bool scale, Rng& g) {
  const size_t N = Lanes(d), pad = (kA & Dot::kPaddedToVector) ? (n + N - 1) / N * N : n;
  E().cur = std::string("Dot ") + TName<TA>() + TName<TB>() + " " + std::to_string(kA);
  const int kind = static_cast<int>(g.below(2));
  Window a = Place(0, kind, pad * sizeof(TA), sizeof(TA), 0), b = Place(1, kind, pad * sizeof(TB), sizeof(TB), 0);
  const size_t sa = g.below(3) ? g.below(16) * sizeof(TA) : 0, sb = g.below(3) ? g.below(16) * sizeof(TB) : 0;   // misalignment
  if (kind == 1) { a.p += sa; b.p += sb; } else if (g.below(2)) { a.p -= sa; b.p -= sb; }
  memset(A(0).lo, 0xFF, Arena::kSize); memset(A(1).lo, 0xFF, Arena::kSize);   // NaN, or -1
  const int ea = scale ? static_cast<int>(g.below(9)) - 4 : 0, eb = scale ? static_cast<int>(g.below(9)) - 4 : 0;
  std::vector<long> va, vb;
  const uint32_t style = g.below(6); const size_t hot = n ? g.below(static_cast<uint32_t>(n)) : 0;
  for (size_t i = 0; i < n; ++i) {
    long x = static_cast<long>(g.below(static_cast<uint32_t>(2 * bound + 1))) - bound, y = static_cast<long>(g.below(static_cast<uint32_t>(2 * bound + 1))) - bound;
    if (style == 0) { x = i == hot ? bound : 0; }
    if (style == 1) { x = 1; y = 1; }
    if (style == 2 && hwy::IsSame<TA, int16_t>()) { x = y = i == hot ? -32768 : 0; }
    va.push_back(x); vb.push_back(y);
    const TA p = Num<TA>(x, ea); const TB q = Num<TB>(y, eb);
    memcpy(a.p + i * sizeof(TA), &p, sizeof p); memcpy(b.p + i * sizeof(TB), &q, sizeof q);
  }
  if (pad > n && g.below(2)) for (size_t i = n; i < pad; ++i) { const TA p = Num<TA>(bound, ea); const TB q = Num<TB>(bound, eb); memcpy(a.p + i * sizeof(TA), &p, sizeof p); memcpy(b.p + i * sizeof(TB), &q, sizeof q); }
  double r = 0;
  const bool fault = Faults([&]() HWY_ATTR { r = ConvertScalarTo<double>(Dot::Compute<kA>(d, reinterpret_cast<const TA*>(a.p), reinterpret_cast<const TB*>(b.p), n)); });
  const double v = ldexp(r, -ea - eb); const bool exact = v == floor(v) && fabs(v) < 2147483648.0;
  RecX("Dot", (std::string(TName<TA>()) + "-" + TName<TB>()).c_str(), "\"as\":" + std::to_string(kA) + ",\"lanes\":" + std::to_string(N) + ",\"bound\":" + std::to_string(bound) + ",\"fault\":" + std::to_string(int(fault)) + ",\"exact\":" + std::to_string(int(exact)) +
    ",\"r\":" + std::to_string(exact ? static_cast<long>(v) : 0) + ",\"x\":" + JI(va) + ",\"y\":" + JI(vb));
}
template <int kA, class D, typename TA, typename TB> void Counts(D d, long bound, bool scale, Rng& g) {
  const size_t N = Lanes(d);
  std::vector<size_t> ns;
  if (N <= 4 || E().thorough) for (size_t n = 0; n <= 10 * N; ++n) ns.push_back(n);
  else { for (size_t k = 0; k <= 9; ++k) for (size_t m = 0; m < 3; ++m) if (k * N + m >= 1) ns.push_back(k * N + m - 1); for (int r = 0; r < 10; ++r) ns.push_back(g.below(static_cast<uint32_t>(9 * N))); }
  for (size_t n : ns) {
    if ((kA & Dot::kAtLeastOneVector) && n < N) continue;
    if ((kA & Dot::kMultipleOfVector) && n % N) continue;
    for (int rep = 0; rep < (E().thorough ? 4 : 1 + (kA == 0 || kA == 4)); ++rep) One<kA, D, TA, TB>(d, n, bound, scale, g);
  }
}
template <class D, typename TA, typename TB> void All(D d, long bound, bool scale) {
  Rng g(E().seed + sizeof(TA) * 16 + sizeof(TB) + Lanes(d) * 64);
  Counts<0, D, TA, TB>(d, bound, scale, g); Counts<1, D, TA, TB>(d, bound, scale, g); Counts<2, D, TA, TB>(d, bound, scale, g); Counts<3, D, TA, TB>(d, bound, scale, g);
  Counts<4, D, TA, TB>(d, bound, scale, g); Counts<5, D, TA, TB>(d, bound, scale, g); Counts<6, D, TA, TB>(d, bound, scale, g); Counts<7, D, TA, TB>(d, bound, scale, g);
}
template <typename TA, typename TB> HWY_NOINLINE void Types(long bound, bool scale) {
  using TD = TA;
  All<ScalableTag<TD>, TA, TB>(ScalableTag<TD>(), bound, scale);
#if HWY_TARGET != HWY_SCALAR
  if constexpr (HWY_LANES(TD) * sizeof(TD) > 16) All<CappedTag<TD, 16 / sizeof(TD)>, TA, TB>(CappedTag<TD, 16 / sizeof(TD)>(), bound, scale);
  All<CappedTag<TD, 8 / sizeof(TD)>, TA, TB>(CappedTag<TD, 8 / sizeof(TD)>(), bound, scale);
#endif
}
void Main() {
  InstallFault();
#if VPART == 0
  Types<float, float>(120, true); Types<float, bfloat16_t>(120, true);
#elif VPART == 1
  Types<bfloat16_t, bfloat16_t>(100, true); Types<int16_t, int16_t>(1200, false);
#else
#if HWY_HAVE_FLOAT64
  Types<double, double>(1500, true);
#endif
#if HWY_HAVE_FLOAT16
  Types<float16_t, float16_t>(2, false);
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
