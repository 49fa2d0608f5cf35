// P07: targets reported for simulated processors and operating systems.
#include "hwy/targets.h"
#include "trace.h"
using namespace vt;
extern "C" {
struct Leaf { uint32_t leaf, sub, r[4]; };
extern Leaf g_leaves[16]; extern int g_num_leaves;
extern uint32_t g_noise[4], g_xcr0, g_osxsave, g_bad_xgetbv, g_max, g_bad_leaf;
}
struct Feature { const char* name; uint32_t leaf, sub; int reg, bit; };
// Intel SDM / AMD APM
enum { A, B, C, D };
static const Feature kF[] = {
    {"SSE", 1, 0, D, 25}, {"SSE2", 1, 0, D, 26}, {"SSE3", 1, 0, C, 0}, {"PCLMULQDQ", 1, 0, C, 1}, {"SSSE3", 1, 0, C, 9}, {"FMA", 1, 0, C, 12},
    {"SSE4.1", 1, 0, C, 19}, {"SSE4.2", 1, 0, C, 20}, {"AES", 1, 0, C, 25}, {"XSAVE", 1, 0, C, 26}, {"OSXSAVE", 1, 0, C, 27}, {"AVX", 1, 0, C, 28}, {"F16C", 1, 0, C, 29},
    {"LZCNT", 0x80000001u, 0, C, 5},
    {"BMI1", 7, 0, B, 3}, {"AVX2", 7, 0, B, 5}, {"BMI2", 7, 0, B, 8}, {"AVX512F", 7, 0, B, 16}, {"AVX512DQ", 7, 0, B, 17}, {"AVX512CD", 7, 0, B, 28}, {"AVX512BW", 7, 0, B, 30}, {"AVX512VL", 7, 0, B, 31},
    {"AVX512_VBMI", 7, 0, C, 1}, {"AVX512_VBMI2", 7, 0, C, 6}, {"GFNI", 7, 0, C, 8}, {"VAES", 7, 0, C, 9}, {"VPCLMULQDQ", 7, 0, C, 10}, {"AVX512_VNNI", 7, 0, C, 11}, {"AVX512_BITALG", 7, 0, C, 12}, {"AVX512_VPOPCNTDQ", 7, 0, C, 14},
    {"AVX512_FP16", 7, 0, D, 23}, {"AVX512_BF16", 7, 1, A, 5}, {"AVX10", 7, 1, D, 19}, {"APX", 7, 1, D, 21}};
constexpr int kN = sizeof(kF) / sizeof(kF[0]);
static std::vector<int> Set(int64_t m) { std::vector<int> v; for (int i = 0; i < 63; ++i) if ((m >> i) & 1) v.push_back(i); return v; }
static void One(Rng& g, const std::vector<bool>& have, uint32_t max_level, int vendor, uint32_t xcr0, uint32_t ver, bool w512, bool noise) {
  g_num_leaves = 0;
  auto leaf = [&](uint32_t l, uint32_t s) -> Leaf& {
    for (int i = 0; i < g_num_leaves; ++i) if (g_leaves[i].leaf == l && g_leaves[i].sub == s) return g_leaves[i];
    Leaf& x = g_leaves[g_num_leaves++]; x.leaf = l; x.sub = s;
    for (int k = 0; k < 4; ++k) x.r[k] = noise ? static_cast<uint32_t>(g.next()) : 0;
    return x;
  };
  auto& l0 = leaf(0, 0); l0.r[0] = max_level;
  const uint32_t v[3][3] = {{0x756e6547, 0x49656e69, 0x6c65746e}, {0x68747541, 0x69746e65, 0x444d4163}, {0x6f677948, 0x6e65476e, 0x656e6975}};
  l0.r[1] = v[vendor][0]; l0.r[3] = v[vendor][1]; l0.r[2] = v[vendor][2];
  leaf(1, 0); if (max_level >= 7) { leaf(7, 0); leaf(7, 1); } leaf(0x80000001u, 0);
  std::vector<std::string> names;
  for (int i = 0; i < kN; ++i) {
    if (kF[i].leaf == 7 && max_level < 7) continue;
    uint32_t& r = leaf(kF[i].leaf, kF[i].sub).r[kF[i].reg];
    r = have[i] ? r | (1u << kF[i].bit) : r & ~(1u << kF[i].bit);
    if (have[i]) names.push_back(kF[i].name);
    if (have[i] && !strcmp(kF[i].name, "AVX10")) { auto& t = leaf(0x24, 0); t.r[1] = (t.r[1] & ~0x000400FFu) | ver | (w512 ? 1u << 18 : 0); }
  }
  for (auto& x : g_noise) x = noise ? ~0u : 0;
  g_max = max_level; g_xcr0 = xcr0; g_bad_xgetbv = 0; g_osxsave = have[10];
  const int64_t t = hwy::SupportedTargets();
  std::vector<int> x; for (int i = 0; i < 8; ++i) if ((xcr0 >> i) & 1) x.push_back(i);
  Ev("cpu", names, vendor == 1, x, ver, w512, Set(t), g_bad_xgetbv);
}
static int64_t Ignore = 0;
int main(int argc, char** argv) {
  const Args a = Init(argc, argv);
  hwy::SetWarnFunc([](const char*, int, const char*) { ++Ignore; });
  Rng g(a.seed);
  Begin("");
  std::vector<bool> all(kN, true);
  int in_ep = 0;
  auto go = [&](const std::vector<bool>& h, uint32_t ml, int vd, uint32_t x, uint32_t ver, bool w, bool n) { One(g, h, ml, vd, x, ver, w, n); if (++in_ep % 50 == 0) { End(); Begin(""); } };
  // Everything; each single feature and each pair missing; all OS states; limits.
  for (int vd = 0; vd < 3; ++vd)
    for (uint32_t x = 0; x < 256; ++x) { if (!a.thorough && (x & 0x18)) continue; go(all, 0x24, vd, x, x % 3, (x >> 1) & 1, false); }
  for (int avx10 = 0; avx10 < 2; ++avx10)
    for (int i = 0; i < kN; ++i)
      for (int j = i; j < kN; ++j) {
        if (!a.thorough && j != i && g.below(4)) continue;
        auto h = all; h[32] = avx10; h[i] = h[j] = false;
        go(h, 0x24, static_cast<int>(g.below(3)), 0xE7, g.below(4), g.below(2), g.below(2));
        if (i == j) { go(h, 0x24, 1, 0xE7, 2, true, true); go(h, 0x24, 1, 0xE7, 1, false, true); }
      }
  for (int i = 0; i < kN; ++i) { std::vector<bool> h(kN, false); h[i] = true; go(h, 0x24, 0, 0xFF, 2, true, true); }
  for (uint32_t ml : {1u, 2u, 6u, 7u, 0xdu, 0x24u}) for (int n = 0; n < 8; ++n) { auto h = all; if (ml < 0x24) h[32] = false; go(h, ml, n % 3, 0xE7, 2, true, n & 1); }
  const int reps = a.thorough ? 200000 : 4000;
  for (int r = 0; r < reps; ++r) {
    auto h = all;
    const uint32_t drop = g.below(4) ? g.below(4) : g.below(20);
    for (uint32_t k = 0; k < drop; ++k) h[g.below(kN)] = false;
    if (g.below(2)) { h[9] = h[10] = true; }
    if (g.below(2)) h[32] = false;
    const uint32_t x = g.below(2) ? 0xE7 : g.below(3) ? g.below(256) : 7;
    go(h, g.below(8) ? 0x24 : 7 + (h[32] ? 0x1d : g.below(3)), static_cast<int>(g.below(3)), x, g.below(4), g.below(2), g.below(2));
  }
  End();
  return Done();
}
