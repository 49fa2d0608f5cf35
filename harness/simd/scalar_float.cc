// P37: scalar half-precision types and scalar floating-point utilities of base.h.
#include <cmath>
#include "simd/common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
using u64 = uint64_t;
static void X(const char* op, const char* t, const char* to, const Bytes& b) { Rec(op, t, b, std::string("\"to\":\"") + to + "\""); }
template <typename TF, typename TTo> void C1(const char* op, TF in, TTo out) { Bytes b; Put(b, in); Put(b, out); X(op, TName<TF>(), TName<TTo>(), b); }

template <typename T> std::vector<u64> FloatOperands(Rng& g, size_t random) {
  const int bits = sizeof(T) * 8, mb = MantissaBits<T>();
  const u64 m = bits == 64 ? ~0ull : (1ull << bits) - 1, mm = (1ull << mb) - 1, sign = 1ull << (bits - 1), emax = static_cast<u64>(MaxExponentField<T>());
  std::vector<u64> v;
  const u64 fields[] = {0, 1, 2, emax / 4, emax / 2 - 1, emax / 2, emax / 2 + 1, emax / 2 + static_cast<u64>(mb) - 1, emax / 2 + static_cast<u64>(mb), emax / 2 + static_cast<u64>(mb) + 1, emax - 2, emax - 1, emax};
  for (u64 e : fields) for (u64 f : {u64{0}, u64{1}, mm, mm - 1, (mm + 1) / 2, (mm + 1) / 2 - 1}) for (u64 s : {u64{0}, sign}) v.push_back((e << mb) | f | s);
  for (size_t i = 0; i < random; ++i) {
    u64 r = g.next() & m;
    if (i % 3 == 0) r = (r & ~(emax << mb)) | ((emax / 2 + g.below(40) - 10) << mb);     // moderate exponents
    v.push_back(r & m);
  }
  return v;
}
template <typename TS, typename TW> std::vector<u64> NearHalf(Rng& g) {
  // Every narrow value (quick: a sample with all subnormals), the midpoints between neighbours, and their neighbours.
  std::vector<u64> v;
  constexpr int kShift = MantissaBits<TW>() - MantissaBits<TS>();
  for (uint32_t i = 0; i < 65536; ++i) {
    const bool sub = ((i >> MantissaBits<TS>()) & static_cast<uint32_t>(MaxExponentField<TS>())) <= 1;
    if (!E().thorough && g.below(sub ? 4 : 48) != 0) continue;
    const TS s = FromBits<TS>(i);
    if (ScalarIsNaN(s)) continue;
    // The bits of the wide value, computed with integers.
    const u64 f = (i >> MantissaBits<TS>()) & static_cast<uint32_t>(MaxExponentField<TS>()), m = i & ((1u << MantissaBits<TS>()) - 1), sg = i >> 15;
    const u64 bias = static_cast<u64>(MaxExponentField<TW>() / 2 - MaxExponentField<TS>() / 2);
    u64 w = 0, step = 0;
    if (f != 0) { w = ((f + bias) << MantissaBits<TW>()) | (m << kShift); step = 1ull << (kShift - 1); }
    else if (bias == 0) { w = m << kShift; step = 1ull << (kShift - 1); }
    else {
      const int lsb = MantissaBits<TS>() == 10 ? -24 : -133;
      const double d = ldexp(static_cast<double>(m), lsb), h = ldexp(static_cast<double>(m) + 0.5, lsb);
      if (sizeof(TW) == 4) { w = ToBits(static_cast<float>(d)); step = ToBits(static_cast<float>(h)) - w; }
      else { w = ToBits(d); step = ToBits(h) - w; }
    }
    const u64 sb = sg << (sizeof(TW) * 8 - 1);
    for (u64 k : {u64{0}, step, step + 1, step - 1, u64{1}, g.next() % (step + 1)}) v.push_back(((w + k) & ~(1ull << (sizeof(TW) * 8 - 1))) | sb);
  }
  return v;
}
template <typename TS> TS Narrow(float f);
template <typename TS> TS Narrow(double f);
template <> float16_t Narrow(float f) { return F16FromF32(f); }
template <> float16_t Narrow(double f) { return F16FromF64(f); }
template <> bfloat16_t Narrow(float f) { return BF16FromF32(f); }
template <> bfloat16_t Narrow(double f) { return BF16FromF64(f); }
inline float Widen(float16_t v) { return F32FromF16(v); }
inline float Widen(bfloat16_t v) { return F32FromBF16(v); }
inline float WidenMem(const void* p, float16_t) { return F32FromF16Mem(p); }
inline float WidenMem(const void* p, bfloat16_t) { return F32FromBF16Mem(p); }

template <typename T> HWY_NOINLINE void Classify(T v) {
  Bytes b; Put(b, v);
  b.push_back(ScalarIsNaN(v)); b.push_back(ScalarIsInf(v)); b.push_back(ScalarIsFinite(v)); b.push_back(ScalarSignBit(v)); Put(b, ScalarAbs(v));
  X("Classify", TName<T>(), "", b);
}
template <typename T> HWY_NOINLINE void CopySigns(T a, T s) { Bytes b; Put(b, a); Put(b, s); Put(b, ScalarCopySign(a, s)); X("CopySign", TName<T>(), "", b); }
template <typename TS> HWY_NOINLINE void Compare(TS a, TS b) {
  Bytes c; Put(c, a); Put(c, b);
  c.push_back(a == b); c.push_back(a != b); c.push_back(a < b); c.push_back(a <= b); c.push_back(a > b); c.push_back(a >= b);
  X("Compare", TName<TS>(), "", c);
}
template <typename TS, class F> HWY_NOINLINE void Arith(const char* op, TS a, TS b, const F& f) { const TS r = f(a, b); Bytes c; Put(c, a); Put(c, b); Put(c, r); X(op, TName<TS>(), "", c); }

template <typename TS> void Half(Rng& g) {
  E().cur = std::string("half ") + TName<TS>();
  for (uint32_t i = 0; i < 65536; ++i) {
    const TS s = FromBits<TS>(i);
    if (E().thorough || i % 5 == g.below(5)) {
      const float w = Widen(s);
      C1("Convert", s, w);
      if (ToBits(WidenMem(&s, s)) != ToBits(w)) C1("Convert", s, WidenMem(&s, s));
      const double d = ConvertScalarTo<double>(s); if (i % 7 == 0 || E().thorough) C1("Convert", s, d);
      const float w2 = ConvertScalarTo<float>(s); if (ToBits(w2) != ToBits(w)) C1("Convert", s, w2);
    }
    if (E().thorough || i % 16 == g.below(16)) Classify(s);
  }
  for (u64 x : NearHalf<TS, float>(g)) { const float f = FromBits<float>(x); C1("Convert", f, Narrow<TS>(f)); }
  for (u64 x : NearHalf<TS, double>(g)) { const double f = FromBits<double>(x); C1("Convert", f, Narrow<TS>(f)); }
  for (u64 x : FloatOperands<float>(g, 1500)) { const float f = FromBits<float>(x); C1("Convert", f, Narrow<TS>(f)); const TS s = ConvertScalarTo<TS>(f); C1("Convert", f, s); }
  for (u64 x : FloatOperands<double>(g, 1500)) { const double f = FromBits<double>(x); C1("Convert", f, Narrow<TS>(f)); const TS s = ConvertScalarTo<TS>(f); C1("Convert", f, s); }
  for (int i = 0; i < 300; ++i) { const int16_t v = static_cast<int16_t>(g.next() >> g.below(16)); C1("Convert", v, ConvertScalarTo<TS>(v)); const uint16_t u = static_cast<uint16_t>(v); C1("Convert", u, ConvertScalarTo<TS>(u)); }
  for (u64 x : FloatOperands<TS>(g, 300)) { const TS s = FromBits<TS>(x); C1("Convert", s, ConvertScalarTo<float16_t>(s)); C1("Convert", s, ConvertScalarTo<bfloat16_t>(s)); }
  const std::vector<u64> ops = FloatOperands<TS>(g, 400);
  auto any = [&]() { return FromBits<TS>(ops[g.below(static_cast<uint32_t>(ops.size()))]); };
  for (int i = 0; i < (E().thorough ? 20000 : 3000); ++i) {
    const TS a = any(); TS b = any();
    if (i % 8 == 0) b = a;
    if (i % 8 == 1) b = FromBits<TS>((ToBits(a) + g.below(3) - 1) & 0xFFFF);
    if (i % 8 == 2) b = FromBits<TS>(ToBits(a) ^ 0x8000);
    Compare(a, b); CopySigns(a, b);
  }
  { Bytes b; Put(b, hwy::HighestValue<TS>()); Put(b, hwy::LowestValue<TS>()); Put(b, hwy::Epsilon<TS>()); X("Limits", TName<TS>(), "", b); }
}
template <typename T> void Full(Rng& g) {
  const std::vector<u64> ops = FloatOperands<T>(g, 800);
  for (u64 x : ops) { const T v = FromBits<T>(x); Classify(v); CopySigns(v, FromBits<T>(ops[g.below(static_cast<uint32_t>(ops.size()))])); }
  { Bytes b; Put(b, hwy::HighestValue<T>()); Put(b, hwy::LowestValue<T>()); Put(b, hwy::Epsilon<T>()); X("Limits", TName<T>(), "", b); }
}
#if HWY_HAVE_SCALAR_F16_OPERATORS
#define VF16OPS 1
#endif
template <typename TS> void Arithmetic(Rng& g) {
  const std::vector<u64> ops = FloatOperands<TS>(g, 600);
  auto any = [&]() { return FromBits<TS>(ops[g.below(static_cast<uint32_t>(ops.size()))]); };
  for (int i = 0; i < (E().thorough ? 20000 : 3000); ++i) {
    const TS a = any(), b = any();
    Arith("Add", a, b, [](TS x, TS y) -> TS { return x + y; });
    Arith("Sub", a, b, [](TS x, TS y) -> TS { return x - y; });
    Arith("Mul", a, b, [](TS x, TS y) -> TS { return x * y; });
    Arith("Div", a, b, [](TS x, TS y) -> TS { return x / y; });
    if (i % 4 == 0) {
      Arith("Add", a, b, [](TS x, TS y) -> TS { x += y; return x; });
      Arith("Sub", a, b, [](TS x, TS y) -> TS { x -= y; return x; });
      Arith("Mul", a, b, [](TS x, TS y) -> TS { x *= y; return x; });
      Arith("Div", a, b, [](TS x, TS y) -> TS { x /= y; return x; });
      Arith("Neg", a, b, [](TS x, TS) -> TS { return -x; });
      Arith("Inc", a, b, [](TS x, TS) -> TS { return ++x; });
      Arith("Inc", a, b, [](TS x, TS) -> TS { TS z = x; z++; return z; });
      Arith("Dec", a, b, [](TS x, TS) -> TS { return --x; });
      Arith("Dec", a, b, [](TS x, TS) -> TS { TS z = x; z--; return z; });
    }
  }
}
void TestAll() {
  Rng g(E().seed + 37);
  Half<float16_t>(g); Half<bfloat16_t>(g); Full<float>(g); Full<double>(g);
#if HWY_HAVE_SCALAR_F16_OPERATORS
  Arithmetic<float16_t>(g);
#endif
#if HWY_HAVE_SCALAR_BF16_OPERATORS
  Arithmetic<bfloat16_t>(g);
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
