// P36: scalar integer utilities of base.h.
#include "simd/common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
using u64 = uint64_t;
template <typename T> void R(const char* op, std::initializer_list<T> ts, std::initializer_list<u64> us = {}, const char* extra = "") {
  Bytes b; for (T v : ts) Put(b, v); for (u64 v : us) Put(b, v); Rec(op, TName<T>(), b, extra);
}
static std::vector<u64> Operands(int bits, Rng& g, size_t random) {
  const u64 m = bits == 64 ? ~0ull : (1ull << bits) - 1; std::vector<u64> v;
  for (int k = 0; k < bits; ++k) { v.push_back(1ull << k); v.push_back((1ull << k) - 1); v.push_back(((1ull << k) + 1) & m); v.push_back(m - (1ull << k)); v.push_back(m ^ ((1ull << k) - 1)); }
  for (u64 x : {3ull, 5ull, 6ull, 7ull, 9ull, 10ull, 11ull, 641ull, 1000ull, 6700417ull, 1000000007ull}) v.push_back(x & m);
  v.push_back(m); v.push_back(m - 1);
  for (size_t i = 0; i < random; ++i) v.push_back((g.next() >> g.below(static_cast<uint32_t>(bits))) & m);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
template <typename T, class DIV> void Div(Rng& g) {
  const int bits = sizeof(T) * 8;
  const size_t per = E().thorough ? 12 : 4;
  for (u64 d : Operands(bits, g, E().thorough ? 600 : 120)) {
    if (!d) continue;
    const T dd = static_cast<T>(d);
    const DIV div(dd);
    std::vector<T> ns = {0, static_cast<T>(d - 1), dd, static_cast<T>(~T{0}), static_cast<T>(static_cast<T>(~T{0}) / dd * dd - 1), static_cast<T>(static_cast<T>(~T{0}) / dd * dd)};
    for (size_t i = 0; i < per; ++i) { const T k = static_cast<T>(g.next() >> g.below(static_cast<uint32_t>(bits))); ns.push_back(k); ns.push_back(static_cast<T>(k / dd * dd)); ns.push_back(static_cast<T>(k / dd * dd - 1)); }
    for (T n : ns) R<T>("Div", {dd, n, div.Divide(n), div.Remainder(n), div.GetDivisor()});
  }
}
template <typename T> void Common(Rng& g) {
  using TU = MakeUnsigned<T>;
  const int bits = sizeof(T) * 8;
  const std::vector<u64> ops = Operands(bits, g, 60);
  for (u64 x : ops) {
    const T v = static_cast<T>(x);
    R<T>("Pop", {v}, {PopCount(v)});
    R<T>("Abs", {v, ScalarAbs(v)});
    R<T>("Sign", {v}, {ScalarSignBit(v)});
    if (v > 0) R<T>("Floor", {v}, {FloorLog2(v)});
    if (v > 0) R<T>("Ceil", {v}, {CeilLog2(v)});
    for (int s : {0, 1, bits / 2, bits - 2, bits - 1}) R<T>("Shr", {v, ScalarShr(v, s)}, {static_cast<u64>(s)});
    const int64_t inc = static_cast<int64_t>(g.next() >> g.below(64)) * (g.below(2) ? 1 : -1);
    R<T>("AddW", {v, AddWithWraparound(v, inc)}, {static_cast<u64>(inc)});
    R<T>("AddW", {v, AddWithWraparound(v, static_cast<u64>(inc))}, {static_cast<u64>(inc)});
    R<T>("AddW", {v, AddWithWraparound(v, 1)}, {1});
    const T y = static_cast<T>(ops[g.below(static_cast<uint32_t>(ops.size()))]);
    // DivCeil: documented domain is non-negative numbers whose sum is representable.
    for (T b : {y, static_cast<T>(1), static_cast<T>(7), v}) {
      if (sizeof(T) >= 4 && v >= 0 && b > 0 && static_cast<u64>(v) + static_cast<u64>(b) - 1 >= static_cast<u64>(v) && static_cast<u64>(v) + static_cast<u64>(b) - !IsSigned<T>() <= static_cast<u64>(LimitsMax<T>())) R<T>("DivCeil", {v, b, DivCeil(v, b)});
    }
  }
  R<T>("Lim", {LimitsMin<T>(), LimitsMax<T>()});
  (void)sizeof(TU);
}
void Main() {
  Rng g(E().seed + 3);
  Div<uint32_t, Divisor>(g); Div<u64, Divisor64>(g);
  Common<uint8_t>(g); Common<int8_t>(g); Common<uint16_t>(g); Common<int16_t>(g); Common<uint32_t>(g); Common<int32_t>(g); Common<u64>(g); Common<int64_t>(g);
  const std::vector<u64> o32 = Operands(32, g, 100), o64 = Operands(64, g, 200);
  for (u64 x : o32) if (x) { const uint32_t v = static_cast<uint32_t>(x); R<uint32_t>("Ctz", {v}, {Num0BitsBelowLS1Bit_Nonzero32(v)}); R<uint32_t>("Clz", {v}, {Num0BitsAboveMS1Bit_Nonzero32(v)}); }
  for (u64 x : o64) if (x) { R<u64>("Ctz", {x}, {Num0BitsBelowLS1Bit_Nonzero64(x)}); R<u64>("Clz", {x}, {Num0BitsAboveMS1Bit_Nonzero64(x)}); }
  for (u64 a : o64) for (int k = 0; k < (E().thorough ? 40 : 6); ++k) {
    const u64 b = k == 0 ? a : o64[g.below(static_cast<uint32_t>(o64.size()))];
    u64 hi = 0; const u64 lo = Mul128(a, b, &hi); R<u64>("Mul128", {a, b, lo, hi});
    int64_t shi = 0; const int64_t slo = Mul128(static_cast<int64_t>(a), static_cast<int64_t>(b), &shi); R<int64_t>("Mul128", {static_cast<int64_t>(a), static_cast<int64_t>(b), slo, shi});
    const u64 al = o64[g.below(static_cast<uint32_t>(o64.size()))];
    if (al) { { const u64 r = RoundDownTo(a, al); R<u64>("RoundDown", {a, al, r, r / al}); } if (a + (al - 1) >= a) { const u64 r = RoundUpTo(a, al); R<u64>("RoundUp", {a, al, r, r / al}); } }
  }
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
