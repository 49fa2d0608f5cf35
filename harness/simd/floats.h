// Operand lists for floating-point lanes.
#ifndef VERIF_SIMD_FLOATS_H_
#define VERIF_SIMD_FLOATS_H_
#include <cmath>
#include "simd/common.h"
namespace vsimd {
// Boundary encodings of a float type: all classes, both signs, interesting exponents, boundary fractions.
template <typename T> std::vector<uint64_t> FloatEdges() {
  const int bits = sizeof(T) * 8, mb = hwy::MantissaBits<T>();
  const uint64_t mm = (1ull << mb) - 1, sign = 1ull << (bits - 1), emax = static_cast<uint64_t>(hwy::MaxExponentField<T>()), bias = emax / 2;
  std::vector<uint64_t> v;
  const uint64_t fields[] = {0, 1, 2, bias / 2, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + static_cast<uint64_t>(mb) - 1, bias + static_cast<uint64_t>(mb), bias + static_cast<uint64_t>(mb) + 1, emax - 2, emax - 1, emax};
  for (uint64_t e : fields) { if (e > emax) continue;
    for (uint64_t f : {uint64_t{0}, uint64_t{1}, mm, mm - 1, (mm + 1) / 2, (mm + 1) / 2 - 1, (mm + 1) / 2 + 1}) for (uint64_t s : {uint64_t{0}, sign}) v.push_back((e << mb) | f | s); }
  return v;
}
template <typename T> uint64_t RandomFloat(Rng& g) {
  const int bits = sizeof(T) * 8, mb = hwy::MantissaBits<T>();
  const uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1, emax = static_cast<uint64_t>(hwy::MaxExponentField<T>());
  uint64_t r = g.next() & m;
  const uint64_t mm = (1ull << mb) - 1;
  auto setexp = [&](uint64_t e) { r = (r & ~(emax << mb)) | (e << mb); };
  switch (g.below(6)) {
    case 0: break;                                                               // any bits
    case 1: setexp(emax / 2 + g.below(static_cast<uint32_t>(mb) + 4) - 2); break;  // around integers
    case 2: setexp(emax / 2 + g.below(9) - 4); break;
    case 3: setexp(g.below(3)); break;                                           // subnormal, tiny
    case 4: setexp(emax - 1 - g.below(2)); break;                                // huge
    default: { r &= ~(mm >> g.below(static_cast<uint32_t>(mb)));                  // few significant bits
               setexp(emax / 2 + g.below(static_cast<uint32_t>(mb) + 4) - 2); } }
  return r;
}
// Values (as T) at and next to k + {0, 1/2} for integers k around 2^j, for rounding to integers.
template <typename T> void AddIntegers(std::vector<uint64_t>& v) {
  auto add = [&](double x) { const T t = static_cast<T>(x); const uint64_t b = ToBits(t), s = 1ull << (sizeof(T) * 8 - 1);
    for (uint64_t k : {uint64_t{0}, uint64_t{1}, ~uint64_t{0}}) { const uint64_t y = (b + k) & (s - 1); v.push_back(y); v.push_back(y | s); } };
  for (int k = 0; k < 6; ++k) { add(k); add(k + 0.5); add(k + 0.25); }
  for (int j : {7, 8, 15, 16, 22, 23, 24, 30, 31, 32, 33, 51, 52, 53, 62, 63, 64, 65}) { const double p = ldexp(1.0, j); add(p); add(p - 1); add(p + 1); add(p - 0.5); add(p + 0.5); add(p - 1.5); add(p + 1.5); }
}
template <typename T> std::vector<uint64_t> FloatValues(uint64_t seed, size_t random) {
  std::vector<uint64_t> v = FloatEdges<T>();
  Rng g(seed);
  for (size_t i = 0; i < random; ++i) v.push_back(RandomFloat<T>(g));
  return v;
}
// Shuffles and removes duplicates.
inline void Mix(std::vector<uint64_t>& v, uint64_t seed) {
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  Rng g(seed);
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[g.below(static_cast<uint32_t>(i))]);
}
}  // namespace vsimd
#endif
