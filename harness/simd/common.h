// Shared part of the SIMD harnesses: one translation unit is compiled once per target with
// -DHWY_COMPILE_ONLY_STATIC -DHWY_BASELINE_TARGETS=HWY_x.  Records observations of the public ops as
// JSON lines; identical lines of different targets are merged by the check.
#ifndef VERIF_SIMD_COMMON_H_
#define VERIF_SIMD_COMMON_H_
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <type_traits>
#include <vector>
#include "../watchdog.h"
#include <limits>
#include <memory>
#include <utility>
#include <immintrin.h>
// Highway takes other paths for arguments the compiler knows (__builtin_constant_p), which are valid for
// any value.  Each harness runs twice: with and without them, whatever the optimiser can prove.
namespace vsimd {
inline volatile bool g_constant_paths = false;
constexpr bool ConstantPaths() { return __builtin_is_constant_evaluated() ? false : g_constant_paths; }
}
#define __builtin_constant_p(...) (::vsimd::ConstantPaths())
#include "hwy/highway.h"
#include "hwy/aligned_allocator.h"

namespace vsimd {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t v) : s(v * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 33) % n) : 0; }
};
struct Env { FILE* out; uint64_t seed; bool thorough; uint64_t lines, cases; std::string cur; };
inline Env& E() { static Env e; return e; }

template <typename T> constexpr const char* TName() {
  return std::is_same<T, uint8_t>::value ? "u8" : std::is_same<T, int8_t>::value ? "i8" : std::is_same<T, uint16_t>::value ? "u16"
    : std::is_same<T, int16_t>::value ? "i16" : std::is_same<T, uint32_t>::value ? "u32" : std::is_same<T, int32_t>::value ? "i32"
    : std::is_same<T, uint64_t>::value ? "u64" : std::is_same<T, int64_t>::value ? "i64" : std::is_same<T, float>::value ? "f32"
    : std::is_same<T, double>::value ? "f64" : std::is_same<T, hwy::float16_t>::value ? "f16" : std::is_same<T, hwy::bfloat16_t>::value ? "bf16" : "?";
}
using Bytes = std::vector<uint8_t>;
template <typename T> void Put(Bytes& b, const T& v) { uint8_t t[sizeof(T)]; memcpy(t, &v, sizeof(T)); b.insert(b.end(), t, t + sizeof(T)); }
template <typename T> T FromBits(uint64_t u) { T v; memcpy(&v, &u, sizeof(T)); return v; }
template <typename T> uint64_t ToBits(T v) { uint64_t u = 0; memcpy(&u, &v, sizeof(T)); return u; }
inline void AppendInt(std::string& s, unsigned v) { char b[4]; int n = 0; do { b[n++] = static_cast<char>('0' + v % 10); v /= 10; } while (v); while (n) s += b[--n]; }
inline void AppendBytes(std::string& s, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) { if (i) s += ','; AppendInt(s, p[i]); } }

// One observation: op TAB lane type TAB extra JSON members TAB bytes.  The check merges the lines of all
// targets and groups them.
inline void Rec(const char* op, const char* t, const Bytes& c, const std::string& extra = "") {
  std::string s;
  s.reserve(c.size() * 4 + 40);
  s += op; s += '\t'; s += t; s += '\t'; s += extra; s += "\t[";
  AppendBytes(s, c.data(), c.size());
  s += "]\n";
  fputs(s.c_str(), E().out);
  E().cases++; vwd::Progress() = vwd::Progress() + 1;
}
// As Rec, with the whole observation in the JSON members.
inline void RecX(const char* op, const char* t, const std::string& extra) {
  fputs((std::string(op) + "\t" + t + "\t" + extra + "\t[0]\n").c_str(), E().out);
  E().cases++; vwd::Progress() = vwd::Progress() + 1;
}
template <class V> std::string JI(const V& v) { std::string s = "["; bool f = true; for (auto x : v) { if (!f) s += ','; f = false; s += std::to_string(x); } return s + "]"; }
inline void EmitCases(const char* op, const char* t, const std::vector<Bytes>& cases, const std::string& extra = "") {
  for (const Bytes& c : cases) Rec(op, t, c, extra);
}

inline void CrashHandler(int sig) {
  fprintf(E().out, "\ncrash\t%s\t\t[%d]\n", E().cur.c_str(), sig);
  fflush(E().out);
  _exit(0);
}
inline void InstallCrash() {
  static char alt[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = CrashHandler; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
  vwd::Start(60, CrashHandler);
}

// Interesting bit patterns of an integer lane.
template <typename T> std::vector<uint64_t> Edges() {
  const int bits = sizeof(T) * 8;
  const uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
  std::vector<uint64_t> v = {0, 1, 2, 3, m, m - 1, m - 2, m >> 1, (m >> 1) - 1, (m >> 1) + 1, (m >> 1) + 2, 0x5555555555555555ull & m, 0xAAAAAAAAAAAAAAAAull & m,
                             (1ull << (bits / 2)) - 1, 1ull << (bits / 2), (1ull << (bits / 2)) + 1, (1ull << (bits / 2 - 1)), m ^ ((1ull << (bits / 2)) - 1), 7, 100 & m, 127, 128, 255};
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
template <typename T> uint64_t RandomBits(Rng& g) {
  const int bits = sizeof(T) * 8;
  const uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
  uint64_t r = g.next();
  switch (g.below(6)) {
    case 0: return r & m;
    case 1: return (r >> g.below(64)) & m;                      // small
    case 2: return (0 - (r >> g.below(64))) & m;                // small negative
    case 3: return (1ull << g.below(static_cast<uint32_t>(bits))) & m;
    case 4: return ((1ull << g.below(static_cast<uint32_t>(bits))) - 1) & m;
    default: return r & m;
  }
}
// Operand tuples for ops with `arity` operands of lane type T.
template <typename T> std::vector<std::vector<uint64_t>> Tuples(int arity, uint64_t seed, size_t random) {
  std::vector<std::vector<uint64_t>> r(static_cast<size_t>(arity));
  Rng g(seed);
  std::vector<uint64_t> e = Edges<T>();
  auto add = [&](uint64_t a, uint64_t b, uint64_t c) { r[0].push_back(a); if (arity > 1) r[1].push_back(b); if (arity > 2) r[2].push_back(c); };
  if (arity == 1) {
    if (sizeof(T) == 1) for (uint64_t i = 0; i < 256; ++i) add(i, 0, 0);
    for (uint64_t a : e) add(a, 0, 0);
  } else if (arity == 2) {
    if (sizeof(T) == 1 && E().thorough) for (uint64_t i = 0; i < 65536; ++i) add(i & 255, i >> 8, 0);
    for (uint64_t a : e) for (uint64_t b : e) add(a, b, 0);
  } else {
    for (uint64_t a : e) for (uint64_t b : e) add(a, b, e[g.below(static_cast<uint32_t>(e.size()))]);
  }
  for (size_t i = 0; i < random; ++i) {
    const uint64_t a = RandomBits<T>(g);
    uint64_t b = RandomBits<T>(g);
    const uint64_t m = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T) % 64)) - 1;
    if (g.below(5) == 0) b = (a + g.below(3) - 1) & m;
    add(a, b, RandomBits<T>(g));
  }
  // Products whose low half is next to a rounding boundary.
  if (arity >= 2 && sizeof(T) >= 2) {
    const int bits = static_cast<int>(sizeof(T)) * 8;
    const uint64_t m = bits == 64 ? ~0ull : (1ull << (bits % 64)) - 1;
    for (int i = 0; i < 24; ++i) {
      const uint64_t x = g.next() | 1;
      uint64_t inv = x;
      for (int k = 0; k < 6; ++k) inv *= 2 - x * inv;   // inverse of the odd x
      const uint64_t low[6] = {(m >> 2), (m >> 2) + 1, (m >> 1), (m >> 1) + 1, m, 1};
      add(x & m, (low[i % 6] * inv ^ (i >= 12 ? 1ull << (bits - 1) : 0)) & m, RandomBits<T>(g));
    }
  }
  return r;
}
}  // namespace vsimd

HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace vs_ {
using namespace vsimd;

// Calls f(d) for the full vector and smaller ones of the same lane type.
template <typename T, class F> HWY_INLINE void ForSizes(const F& f) {
  const ScalableTag<T> d;
  f(d);
#if HWY_TARGET != HWY_SCALAR
  constexpr size_t kMax = HWY_LANES(T);
  if constexpr (kMax >= 2 && kMax * sizeof(T) / 2 >= 16) f(CappedTag<T, kMax / 2>());
  if constexpr (kMax >= 4 && kMax * sizeof(T) / 4 >= 16) f(CappedTag<T, kMax / 4>());
  if constexpr (kMax * sizeof(T) > 8) f(CappedTag<T, 8 / sizeof(T)>());
  if constexpr (sizeof(T) < 8) f(CappedTag<T, 1>());
#endif
}
// Every vector size of the lane type (powers of two).
template <typename T, class F> HWY_INLINE void ForAllSizes(const F& f) {
#if HWY_TARGET != HWY_SCALAR
  constexpr size_t kMax = HWY_LANES(T);
  if constexpr (kMax >= 64) f(CappedTag<T, 64>());
  if constexpr (kMax >= 32) f(CappedTag<T, 32>());
  if constexpr (kMax >= 16) f(CappedTag<T, 16>());
  if constexpr (kMax >= 8) f(CappedTag<T, 8>());
  if constexpr (kMax >= 4) f(CappedTag<T, 4>());
  if constexpr (kMax >= 2) f(CappedTag<T, 2>());
#endif
  f(CappedTag<T, 1>());
}

template <class D> HWY_INLINE VFromD<D> LoadBits(D d, const std::vector<uint64_t>& bits, size_t at, TFromD<D>* buf) {
  const size_t N = Lanes(d);
  for (size_t i = 0; i < N; ++i) buf[i] = FromBits<TFromD<D>>(bits[(at + i) % bits.size()]);
  return LoadU(d, buf);
}

// Lane-wise op: f(d, a[, b[, c]]) -> vector with the same number of lanes of type TO.
template <typename T, typename TO, int kArity, class F>
HWY_NOINLINE void LaneWise(const char* op, const std::vector<std::vector<uint64_t>>& in, const F& f) {
  E().cur = std::string(op) + " " + TName<T>();
  const size_t n = in[0].size();
  std::vector<uint64_t> first(n); std::vector<bool> have(n, false);
  std::vector<Bytes> cases, diffs;
  HWY_ALIGN T buf[64]; HWY_ALIGN TO out[64];
  auto body = [&](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    const Rebind<TO, decltype(d)> dto;
    for (size_t at = 0; at < n; at += N) {
      const auto a = LoadBits(d, in[0], at, buf);
      if constexpr (kArity == 1) StoreU(f(d, a), dto, out);
      else {
        const auto b = LoadBits(d, in[1], at, buf);
        if constexpr (kArity == 2) StoreU(f(d, a, b), dto, out);
        else StoreU(f(d, a, b, LoadBits(d, in[2], at, buf)), dto, out);
      }
      for (size_t i = 0; i < N && at + i < n; ++i) {
        const uint64_t r = ToBits(out[i]);
        if (have[at + i] && first[at + i] == r) continue;
        Bytes c;
        for (int k = 0; k < kArity; ++k) Put(c, FromBits<T>(in[static_cast<size_t>(k)][at + i]));
        Put(c, out[i]);
        if (have[at + i]) { diffs.push_back(c); continue; }
        have[at + i] = true; first[at + i] = r;
        cases.push_back(c);
      }
    }
  };
  ForSizes<T>(body);
  EmitCases(op, TName<T>(), cases);
  EmitCases(op, TName<T>(), diffs);
}

}  // namespace vs_
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();

#define VSIMD_MAIN(FUNC)                                                        \
  int main(int argc, char** argv) {                                            \
    vsimd::E().out = fopen(argv[1], "w");                                      \
    vsimd::E().seed = strtoull(argv[2], nullptr, 10);                          \
    vsimd::E().thorough = argc > 3 && !strcmp(argv[3], "thorough");            \
    vsimd::g_constant_paths = argc > 4 && !strcmp(argv[4], "constant");        \
    vsimd::InstallCrash();                                                     \
    FUNC();                                                                    \
    fclose(vsimd::E().out);                                                    \
    printf("{\"lines\":%lu,\"cases\":%lu}\n", vsimd::E().lines, vsimd::E().cases); \
    return 0;                                                                  \
  }
#endif
