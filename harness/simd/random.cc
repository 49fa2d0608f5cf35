// P20: random streams.  One record per generator history.
#include <malloc.h>
#include "simd/common.h"
#include "hwy/contrib/random/random-inl.h"
static bool g_fill = false;
extern "C" void* __real_malloc(size_t); extern "C" void* __wrap_malloc(size_t n) {   // blocks of the aligned allocator
  uint8_t* p = static_cast<uint8_t*>(__real_malloc(n + 256));
  if (g_fill && p) memset(p, 0xA5, n + 256);
  return p;
}
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
std::string WordJ(uint64_t w) { std::string s = "["; uint8_t b[8]; memcpy(b, &w, 8); AppendBytes(s, b, 8); return s + "]"; }
template <class It> std::string WordsJ(It b, It e) { std::string s = "["; for (It i = b; i != e; ++i) { uint64_t w; memcpy(&w, &*i, 8); s += (i == b ? "" : ",") + WordJ(w); } return s + "]"; }
struct Hist {
  std::string ev; size_t n = 0;
  // `kept`: nothing beyond the requested count was written
  void Add(const char* k, size_t cnt, const std::string& out, bool kept = true) {
    ev += std::string(n++ ? "," : "") + "{\"k\":\"" + k + "\",\"n\":" + std::to_string(cnt) + ",\"out\":" + out + ",\"kept\":" + std::to_string(int(kept)) + "}";
  }
  void Emit(const char* op, uint64_t seed, uint64_t thread, size_t lanes) {
    RecX(op, "u64", "\"seed\":" + WordJ(seed) + ",\"thread\":" + std::to_string(thread) + ",\"lanes\":" + std::to_string(lanes) + ",\"ev\":[" + ev + "]");
  }
};
template <class V> bool KeptAfter(const V& v) {   // the wrapped malloc appends and fills 256 bytes
  const uint8_t* p = reinterpret_cast<const uint8_t*>(v.data() + v.size());
  bool ok = true;
  const uint8_t* lim = p + HWY_MAX_BYTES;
  for (; p != lim; ++p) ok &= *p == 0xA5;
  return ok;
}
template <size_t kN> void Arr(VectorXoshiro& r, Hist& h, bool uni) {
  struct alignas(HWY_ALIGNMENT) { std::array<uint64_t, kN> a; uint64_t canary[8]; } s; memset(s.canary, 0xA5, sizeof s.canary);
#if HWY_HAVE_FLOAT64
  if (uni) { const std::array<double, kN> u = r.template Uniform<kN>(); h.Add("U", kN, WordsJ(u.begin(), u.end())); return; }
#endif
  (void)uni;
  s.a = r.template operator()<kN>();
  bool kept = true; for (uint64_t c : s.canary) kept &= c == 0xA5A5A5A5A5A5A5A5ull;
  h.Add("N", kN, WordsJ(s.a.begin(), s.a.end()), kept);
}
HWY_NOINLINE void Vector(uint64_t seed, uint64_t thread, Rng& g) {
  VectorXoshiro r = thread == 0 && g.below(2) ? VectorXoshiro(seed) : VectorXoshiro(seed, thread); Hist h; const ScalableTag<uint64_t> d; const size_t N = Lanes(d);
  const int steps = 6 + static_cast<int>(g.below(6));
  for (int s = 0; s < steps; ++s) {
    HWY_ALIGN uint64_t b[16];
    switch (g.below(8)) {
      case 0: Store(r(), d, b); h.Add("N", N, WordsJ(b, b + N)); break;
      case 1: case 2: { const size_t n = g.below(static_cast<uint32_t>(3 * N + 2)); g_fill = true; auto v = r(n); g_fill = false; h.Add("N", n, WordsJ(v.begin(), v.end()), v.size() == n && (n == 0 || KeptAfter(v))); break; }
      case 3: switch (g.below(6)) { case 0: Arr<1>(r, h, false); break; case 1: Arr<2>(r, h, false); break; case 2: Arr<3>(r, h, false); break; case 3: Arr<7>(r, h, false); break; case 4: Arr<8>(r, h, false); break; default: Arr<13>(r, h, false); } break;
      case 4: { const auto& st = r.GetState(); std::string o = "["; for (size_t j = 0; j < 4; ++j) { const uint64_t* row = st[{j}].data(); o += (j ? "," : "") + WordsJ(row, row + N); } h.Add("S", r.StateSize(), o + "]"); break; }
#if HWY_HAVE_FLOAT64
      case 5: { const ScalableTag<double> dd; Store(BitCast(d, r.Uniform()), d, b); (void)dd; h.Add("U", N, WordsJ(b, b + N)); break; }
      case 6: { const size_t n = g.below(static_cast<uint32_t>(3 * N + 2)); g_fill = true; auto v = r.Uniform(n); g_fill = false; h.Add("U", n, WordsJ(v.begin(), v.end()), v.size() == n && (n == 0 || KeptAfter(v))); break; }
      case 7: switch (g.below(4)) { case 0: Arr<1>(r, h, true); break; case 1: Arr<3>(r, h, true); break; case 2: Arr<8>(r, h, true); break; default: Arr<11>(r, h, true); } break;
#endif
      default: break;
    }
  }
  h.Emit("Vector", seed, thread, N);
}
template <uint64_t kSize> HWY_NOINLINE void Cached(uint64_t seed, uint64_t thread, size_t draws) {
  CachedXoshiro<kSize> c = thread ? CachedXoshiro<kSize>(seed, thread) : CachedXoshiro<kSize>(seed); Hist h; std::vector<uint64_t> v;
  for (size_t i = 0; i < draws; ++i) v.push_back(c());
  h.Add("C", kSize, WordsJ(v.begin(), v.end()), c.min() == 0 && c.max() == ~0ull);
  h.Emit("Cached", seed, thread, Lanes(ScalableTag<uint64_t>()));
}
HWY_NOINLINE void Scalar(uint64_t seed, uint64_t thread, Rng& g) {
  internal::Xoshiro r = thread ? internal::Xoshiro(seed, thread) : internal::Xoshiro(seed); Hist h;
  for (int s = 0; s < 12; ++s) {
    uint64_t w;
    switch (g.below(6)) {
      case 0: r.Jump(); h.Add("J", 0, "[]"); break;
      case 1: r.LongJump(); h.Add("L", 0, "[]"); break;
      case 2: { auto st = r.GetState(); h.Add("S", r.StateSize(), WordsJ(st.begin(), st.end())); if (g.below(2)) { st[g.below(4)] = g.next(); r.SetState(st); h.Add("T", 0, WordsJ(st.begin(), st.end())); } break; }
#if HWY_HAVE_FLOAT64
      case 3: { const double u = r.Uniform(); memcpy(&w, &u, 8); h.Add("U", 1, WordsJ(&w, &w + 1)); break; }
#endif
      default: w = r(); h.Add("N", 1, WordsJ(&w, &w + 1));
    }
  }
  h.Emit("Scalar", seed, thread, 1);
  internal::SplitMix64 sm(seed); std::vector<uint64_t> v; for (int i = 0; i < 6; ++i) v.push_back(sm());
  Hist h2; h2.Add("M", v.size(), WordsJ(v.begin(), v.end())); h2.Emit("Split", seed, 0, 1);
}
void Main() {
  Rng g(E().seed * 77 + 5);
  const uint64_t seeds[] = {0, 1, ~0ull, 0x123456789abcdefull, g.next(), g.next() >> 40, 1ull << 63, g.next()};
  const int reps = E().thorough ? 8 : 1;
  for (int rep = 0; rep < reps; ++rep)
    for (size_t i = 0; i < 8; ++i) {
      const uint64_t s = rep ? g.next() : seeds[i];
      Vector(s, i % 4, g);
      Scalar(s, i % 4, g);
    }
  Cached<1>(g.next(), 0, 5); Cached<2>(g.next(), 1, 9); Cached<4>(g.next(), 2, 13); Cached<16>(g.next(), 0, 40); Cached<64>(g.next(), 1, 130);
  if (E().thorough) Cached<1024>(g.next(), 3, 2100);
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
