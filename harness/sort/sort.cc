// P14/P15: sorting, partial sorting and selection of every key type (VPART selects some) by the
// statically compiled target.  Inputs end (or start) at an inaccessible page.
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "../watchdog.h"
#include <algorithm>
#include <cmath>
#include <string>
#include <unordered_map>
#include <vector>
#ifdef VDYN   // the public, dynamically dispatched entry points
#include "hwy/contrib/sort/vqsort.h"
#define VQSortStatic hwy::VQSort
#define VQPartialSortStatic hwy::VQPartialSort
#define VQSelectStatic hwy::VQSelect
#else
#include "hwy/contrib/sort/vqsort-inl.h"
#endif
#include "hwy/highway.h"
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
namespace {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t v) : s(v * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 33) % n) : 0; }
};
FILE* out;
char cur[200];
uint8_t* region; constexpr size_t kMax = 1 << 20;

template <class K> struct Name {};
#define NM(K, S) template <> struct Name<K> { static constexpr const char* v = S; };
NM(uint16_t, "u16") NM(int16_t, "i16") NM(uint32_t, "u32") NM(int32_t, "i32") NM(uint64_t, "u64") NM(int64_t, "i64")
NM(float, "f32") NM(double, "f64") NM(float16_t, "f16") NM(uint128_t, "u128") NM(K64V64, "k64v64") NM(K32V32, "k32v32")
struct Bits { uint64_t lo = 0, hi = 0; bool operator==(const Bits& o) const { return lo == o.lo && hi == o.hi; } };
template <class K> Bits ToB(const K& k) { Bits b; uint8_t t[16] = {0}; memcpy(t, &k, sizeof(K)); memcpy(&b, t, 16); return b; }
template <class K> K FromB(Bits b) { K k; memcpy(&k, &b, sizeof(K)); return k; }
struct Hash { size_t operator()(const Bits& b) const { return b.lo * 0x9E3779B97F4A7C15ull ^ (b.hi + 77) * 0xC2B2AE3D27D4EB4Full; } };
template <class K> constexpr bool IsF() { return std::is_same<K, float>::value || std::is_same<K, double>::value || std::is_same<K, float16_t>::value; }
// Representative of a key: all NaN alike, both zeros alike.
template <class K> Bits Canon(const K& k) {
  Bits b = ToB(k);
  if constexpr (IsF<K>()) {
    const uint64_t sign = 1ull << (sizeof(K) * 8 - 1), expm = sizeof(K) == 8 ? 0x7FF0000000000000ull : sizeof(K) == 4 ? 0x7F800000ull : 0x7C00ull;
    if ((b.lo & ~sign) == 0) b.lo = 0;
    if ((b.lo & ~sign & (sign - 1)) > expm) b.lo = expm | (expm >> 1 & ~expm) | 1;
  }
  return b;
}
// A number whose unsigned order is (claimed to be) the key order; the specification checks the claim.
template <class K> Bits OrderKey(Bits b) {
  if constexpr (std::is_same<K, uint128_t>::value) return b;
  if constexpr (std::is_same<K, K64V64>::value) return Bits{b.hi, 0};
  if constexpr (std::is_same<K, K32V32>::value) return Bits{b.lo >> 32, 0};
  const uint64_t sign = 1ull << (sizeof(K) * 8 - 1), m = sign | (sign - 1);
  if constexpr (IsF<K>()) { return Bits{((b.lo & sign) ? ~b.lo : (b.lo | sign)) & m, 0}; }
  if constexpr (std::is_signed<K>::value) return Bits{(b.lo ^ sign) & m, 0};
  return b;
}
template <class K> bool LessB(Bits a, Bits b) { a = OrderKey<K>(a); b = OrderKey<K>(b); return a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo; }

template <class K, class F> void Run(const char* op, bool asc, const std::vector<K>& in, size_t k, bool front, const F& f) {
  const size_t n = in.size();
  snprintf(cur, sizeof cur, "\"op\":\"%s\",\"t\":\"%s\",\"asc\":%d,\"n\":%zu,\"k\":%zu", op, Name<K>::v, asc, n, k);
  const size_t page = 4096;
  K* p = reinterpret_cast<K*>(front ? region + page : region + page + kMax - n * sizeof(K));
  memcpy(static_cast<void*>(p), in.data(), n * sizeof(K));
  if (front) memset(static_cast<void*>(p + n), 0xA5, 512); else memset(reinterpret_cast<uint8_t*>(p) - 512, 0xA5, 512);
  vwd::Progress() = vwd::Progress() + 1;
  f(p);
  bool guard = true;
  for (size_t i = 0; i < 512; ++i) { if (front ? reinterpret_cast<uint8_t*>(p + n)[i] != 0xA5 : (reinterpret_cast<uint8_t*>(p) - 512)[i] != 0xA5) guard = false; }
  // dictionary of the distinct input keys in claimed ascending order
  std::vector<Bits> ci(n); for (size_t i = 0; i < n; ++i) ci[i] = Canon(in[i]);
  std::vector<Bits> dict(ci);
  std::sort(dict.begin(), dict.end(), [](Bits a, Bits b) { if (LessB<K>(a, b)) return true; if (LessB<K>(b, a)) return false; return a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo; });
  dict.erase(std::unique(dict.begin(), dict.end()), dict.end());
  std::unordered_map<Bits, int, Hash> ix; for (size_t i = 0; i < dict.size(); ++i) ix[dict[i]] = static_cast<int>(i) + 1;
  std::vector<std::vector<int>> where(dict.size() + 1);
  std::string s = "{"; s += cur; s += ",\"guard\":"; s += guard ? "1" : "0"; s += ",\"d\":[";
  char b[24];
  for (size_t i = 0; i < dict.size(); ++i) {
    s += i ? ",[" : "[";
    uint8_t t[16]; memcpy(t, &dict[i], 16);
    for (size_t j = 0; j < sizeof(K); ++j) { snprintf(b, sizeof b, "%s%u", j ? "," : "", t[j]); s += b; }
    s += "]";
  }
  s += "],\"rk\":[";
  for (size_t i = 0, rk = 1; i < dict.size(); ++i) { if (i && LessB<K>(dict[i - 1], dict[i])) ++rk; snprintf(b, sizeof b, "%s%zu", i ? "," : "", rk); s += b; }
  s += "],\"in\":[";
  for (size_t i = 0; i < n; ++i) { int q = ix[ci[i]]; where[q].push_back(static_cast<int>(i) + 1); snprintf(b, sizeof b, "%s%d", i ? "," : "", q); s += b; }
  s += "],\"w\":[";   // witness: which input element each output element is
  for (size_t i = 0; i < n; ++i) {
    int q = 0; auto it = ix.find(Canon(p[i])); if (it != ix.end()) q = it->second;
    int from = 0; if (q && !where[q].empty()) { from = where[q].back(); where[q].pop_back(); }
    snprintf(b, sizeof b, "%s%d", i ? "," : "", from); s += b;
  }
  s += "]}\n";
  fputs(s.c_str(), out);
}

template <class K> K RandomKey(Rng& r, int dist, size_t i, size_t n, uint64_t salt) {
  Bits b{r.next(), r.next()};
  const int bits = sizeof(K) * 8;
  auto small = [&](uint64_t v) { Bits x; if constexpr (IsF<K>()) { if constexpr (sizeof(K) == 2) { x.lo = 0x4000 + (v & 0x3FF); } else { K f = static_cast<K>(static_cast<double>(v)); x = ToB(f); } }
    else if constexpr (std::is_same<K, K64V64>::value) { x.hi = v; x.lo = r.next(); } else if constexpr (std::is_same<K, K32V32>::value) { x.lo = (v << 32) | (r.next() & 0xFFFFFFFF); } else { x.lo = v; if (bits == 128 && (salt & 1)) { x.hi = v; x.lo = 0; } } return x; };
  switch (dist) {
    case 0: break;
    case 1: b = small(r.below(2)); break;
    case 2: b = small(r.below(3)); break;
    case 3: b = small(r.below(16)); break;
    case 4: b = small(i); break;                       // ascending
    case 5: b = small(n - i); break;                   // descending
    case 6: b = small(7); break;                       // all equal
    case 7: b = small(i % 2 ? i : n - i); break;
    case 8: { uint32_t c = r.below(10); if (c == 0) b = Bits{0, 0}; else if (c == 1) b = Bits{~0ull, ~0ull}; else if (c == 2) b = Bits{~0ull >> 1, ~0ull >> 1}; else if (c == 3) b = Bits{1ull << (bits < 64 ? bits - 1 : 63), 1ull << 63}; break; }
    case 9: b = small(i == n / 2 || i == n - 1 ? 9 : 8); break;   // almost all equal
    case 10: b = small(i < n / 2 ? i : n - i); break;             // organ pipe
    case 11: b.hi = r.below(4); b.lo = r.below(4); if (std::is_same<K, K32V32>::value) b.lo = (uint64_t(r.below(4)) << 32) | r.below(4); break;   // two-part keys with ties
    case 12: b = small(r.below(5) ? 100 : r.below(200)); break;   // one very common key
    case 14: b = r.below(2) ? Bits{~0ull, ~0ull} : Bits{~0ull - 1, ~0ull}; break;
    default: b = small((i * 2654435761u) % (n ? n : 1)); break;
  }
  if constexpr (IsF<K>()) {
    const uint64_t expm = sizeof(K) == 8 ? 0x7FF0000000000000ull : sizeof(K) == 4 ? 0x7F800000ull : 0x7C00ull;
    const uint64_t sign = 1ull << (bits - 1);
    if (dist == 8) { uint32_t c = r.below(8); if (c == 0) b.lo = expm; if (c == 1) b.lo = expm | sign; if (c == 2) b.lo = expm | 1 | (r.next() & sign); if (c == 3) b.lo = sign; if (c == 4) b.lo = 0; if (c == 5) b.lo = 1; }
    if (dist == 0 && (b.lo & expm) == expm && r.below(2)) b.lo &= ~expm;
    if (dist == 2 && r.below(3) == 0) b.lo = expm | 5;                 // many NaN
    if (dist == 14) b.lo = expm - (b.lo & 1);
  }
  if (sizeof(K) < 8) b.lo &= (1ull << (bits & 63)) - 1;
  if (sizeof(K) <= 8) b.hi = 0;
  return FromB<K>(b);
}
template <class K> std::vector<K> Input(Rng& r, int dist, size_t n) {
  uint64_t salt = r.next();
  std::vector<K> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = RandomKey<K>(r, dist, i, n, salt);
  // NaN needs an exact count at times
  if (IsF<K>() && dist == 13 && n) for (uint32_t c = r.below(4); c > 0; --c) { Bits b{sizeof(K) == 8 ? 0x7FF8000000000000ull : sizeof(K) == 4 ? 0x7FC00000ull : 0x7E00ull, 0}; v[r.below(n)] = FromB<K>(b); }
  return v;
}
template <class K, class O> HWY_NOINLINE void Type(uint64_t seed, bool thorough) {
  const bool asc = O::IsAscending();
  Rng r(seed * 31 + sizeof(K) * 7 + (asc ? 1 : 0) + VSEL * 1000);
  const int kD = 15;
  // Base-case sizes up to the largest network, then sizes around the partition code's thresholds.
  std::vector<size_t> sizes;
#ifdef VDYN
  sizes = {0, 1, 2, 5, 17, 40, 100, 300, 700};
  if (VPART == 9) return;
#else
  for (size_t n = 0; n <= 72; ++n) sizes.push_back(n);
  for (size_t n = 73; n < 600; n += 1 + r.below(thorough ? 4 : VSEL ? 48 : 24)) sizes.push_back(n);
  for (int i = 0; i < (thorough ? 60 : VSEL ? 3 : 6); ++i) sizes.push_back(600 + r.below(1500));
  for (int i = 0; i < (thorough ? 10 : 1); ++i) sizes.push_back(2100 + r.below(thorough ? 6000 : 1500));
#endif
  size_t c = r.below(kD);
  for (size_t n : sizes) {
    for (int rep = 0; rep < (n <= 1 ? 1 : n <= 300 ? (thorough ? 4 : VSEL ? 1 : 2) : 1); ++rep) {
      int dist = static_cast<int>(rep ? c % kD : (n % 3 == 0 ? 13 : n % 3 == 1 ? 0 : 8)); if (rep) ++c;
      if (n > 300 || rep >= 2) { dist = static_cast<int>(c++ % kD); }
      std::vector<K> in = Input<K>(r, dist, n);
#if !VSEL
        Run<K>("sort", asc, in, n, rep & 1, [&](K* p) { VQSortStatic(p, n, O()); });
#else
        size_t k = r.below(8) == 0 ? n : r.below(8) == 0 ? 0 : r.below(static_cast<uint32_t>(n + 1));
        if (n % 2 || rep || n > 600) Run<K>("partial", asc, in, k, rep & 1, [&](K* p) { VQPartialSortStatic(p, n, k, O()); });
        if (n && (n % 2 == 0 || rep)) { size_t q = k < n ? k : n - 1; Run<K>("select", asc, in, q, rep & 1, [&](K* p) { VQSelectStatic(p, n, q, O()); }); }
#endif

    }
  }
}
template <class K> void Both(uint64_t seed, bool thorough) {
  Type<K, SortAscending>(seed, thorough);
  Type<K, SortDescending>(seed, thorough);
}
void Crash(int sig) { fprintf(out, "{%s,\"guard\":0,\"d\":[],\"rk\":[],\"in\":[],\"w\":[],\"crash\":%d}\n", cur, sig); fflush(out); _exit(0); }
void Main(uint64_t seed, bool thorough) {
  region = static_cast<uint8_t*>(mmap(nullptr, kMax + 2 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(region, 4096, PROT_NONE); mprotect(region + 4096 + kMax, 4096, PROT_NONE);
  static char alt[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = Crash; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
  alarm(400);
  vwd::Start(20, Crash);
#ifdef VDYN
  Both<uint16_t>(seed, thorough); Both<float>(seed, thorough); Both<int32_t>(seed, thorough); Both<double>(seed, thorough);
  Both<K32V32>(seed, thorough); Both<uint128_t>(seed, thorough); Both<int64_t>(seed, thorough); Both<K64V64>(seed, thorough);
  Both<int16_t>(seed, thorough); Both<uint32_t>(seed, thorough); Both<uint64_t>(seed, thorough);
#elif VPART == 0
  Both<uint16_t>(seed, thorough); Both<float>(seed, thorough);
#elif VPART == 1
  Both<int32_t>(seed, thorough);
#if HWY_HAVE_FLOAT64
  Both<double>(seed, thorough);
#endif
#elif VPART == 2
  Both<K32V32>(seed, thorough);
#if HWY_TARGET != HWY_SCALAR
  Both<uint128_t>(seed, thorough);
#endif
#elif VPART == 3
  Both<int64_t>(seed, thorough);
#if HWY_TARGET != HWY_SCALAR
  Both<K64V64>(seed, thorough);
#endif
#else
  Both<int16_t>(seed, thorough); Both<uint32_t>(seed, thorough); Both<uint64_t>(seed, thorough);
#if HWY_HAVE_FLOAT16
  Both<float16_t>(seed, thorough);
#endif
#endif
}
}  // namespace
}  // namespace HWY_NAMESPACE
}  // namespace hwy
HWY_AFTER_NAMESPACE();
int main(int argc, char** argv) {
  hwy::HWY_NAMESPACE::out = fopen(argv[1], "w");
  hwy::HWY_NAMESPACE::Main(strtoull(argv[2], nullptr, 10), !strcmp(argv[3], "thorough"));
  fclose(hwy::HWY_NAMESPACE::out);
  return 0;
}
