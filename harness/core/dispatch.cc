// P06: dynamic dispatch under histories of settings.
#include "hwy/highway.h"
#include "hwy/per_target.h"
#include <atomic>
#include <map>
#include <thread>
#include "trace.h"
using namespace vt;
namespace hwy {
#define DECL(i) namespace tu##i { int64_t Call(int); int64_t Targets(); std::vector<int64_t> Generated(); }
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4) DECL(5) DECL(6)
}
static constexpr int kTUs = 7;
static int64_t Call(int tu, int kind) {
  switch (tu) { case 0: return hwy::tu0::Call(kind); case 1: return hwy::tu1::Call(kind); case 2: return hwy::tu2::Call(kind); case 3: return hwy::tu3::Call(kind); case 4: return hwy::tu4::Call(kind); case 5: return hwy::tu5::Call(kind); default: return hwy::tu6::Call(kind); }
}
static int64_t Targets(int tu) {
  switch (tu) { case 0: return hwy::tu0::Targets(); case 1: return hwy::tu1::Targets(); case 2: return hwy::tu2::Targets(); case 3: return hwy::tu3::Targets(); case 4: return hwy::tu4::Targets(); case 5: return hwy::tu5::Targets(); default: return hwy::tu6::Targets(); }
}
static std::vector<int64_t> Generated(int tu) {
  switch (tu) { case 0: return hwy::tu0::Generated(); case 1: return hwy::tu1::Generated(); case 2: return hwy::tu2::Generated(); case 3: return hwy::tu3::Generated(); case 4: return hwy::tu4::Generated(); case 5: return hwy::tu5::Generated(); default: return hwy::tu6::Generated(); }
}
static std::vector<int> Set(int64_t m) { std::vector<int> v; for (int i = 0; i < 63; ++i) if ((m >> i) & 1) v.push_back(i); return v; }
static int One(int64_t t) { auto v = Set(t); return v.size() == 1 ? v[0] : -1; }
int main(int argc, char** argv) {
  const Args a = Init(argc, argv);
  Rng g(a.seed);
  const int64_t detected = hwy::SupportedTargets();
  std::string meta = "\"detected\":" + J(Set(detected)) + ",\"targets\":[";
  for (int t = 0; t < kTUs; ++t) meta += (t ? "," : "") + J(Set(Targets(t)));
  meta += "]";
  std::vector<int64_t> interesting = {0, detected, HWY_AVX2, HWY_SSE2, HWY_SSE4 | HWY_SSSE3 | HWY_SSE2, HWY_EMU128, HWY_SCALAR, HWY_EMU128 | HWY_SCALAR, detected & ~HWY_SSE2, HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_ZEN4 | HWY_AVX3_SPR, ~int64_t{0} & 0x7fffffffffffffffll, HWY_AVX10_2 | HWY_AVX10_2_512};
  auto pick = [&]() -> int64_t {
    if (g.below(2)) return interesting[g.below((uint32_t)interesting.size())];
    int64_t m = 0; for (int b : {3, 4, 5, 6, 7, 8, 9, 11, 12, 14, 61, 62}) if (g.below(2)) m |= int64_t{1} << b;
    return m;
  };
  const int episodes = a.thorough ? 6000 : 700;
  for (int e = 0; e < episodes; ++e) {
    hwy::DisableTargets(0); hwy::SetSupportedTargetsForTest(0);
    if (e % 3 == 0) (void)Call((int)g.below(kTUs), 0);
    if (e % 5 == 0) (void)hwy::SupportedTargets();
    Begin(meta);
    const int ops = 3 + (int)g.below(14);
    for (int k = 0; k < ops; ++k) {
      switch (g.below(12)) {
        case 0: case 1: { const int64_t m = pick(); hwy::DisableTargets(m); Ev("disable", Set(m)); if (g.below(2)) Ev("init", hwy::GetChosenTarget().IsInitialized(), false); break; }
        case 2: { const int64_t m = pick(); hwy::SetSupportedTargetsForTest(m); Ev("force", Set(m)); if (g.below(2)) Ev("init", hwy::GetChosenTarget().IsInitialized(), false); break; }
        case 3: Ev("supported", Set(hwy::SupportedTargets())); break;
        case 4: hwy::GetChosenTarget().DeInit(); Ev("reset"); Ev("init", hwy::GetChosenTarget().IsInitialized(), false); break;
        case 5: hwy::GetChosenTarget().Update(hwy::SupportedTargets()); Ev("update"); Ev("init", hwy::GetChosenTarget().IsInitialized(), true); break;
        case 6: { const int t = (int)g.below(kTUs); std::vector<int> v; for (int64_t x : Generated(t)) v.push_back(One(x)); Ev("generated", t, v); break; }
        case 7: { const int t = One(hwy::DispatchedTarget()); Ev("lib", t, (int)hwy::VectorBytes()); break; }
        case 8: {  // racing calls
          if (g.below(3)) break;
          std::atomic<int> go{0}; int64_t r[3]; const int t[3] = {(int)g.below(kTUs), (int)g.below(kTUs), (int)g.below(kTUs)}; const int kd = (int)g.below(4);
          std::thread th[3];
          for (int i = 0; i < 3; ++i) th[i] = std::thread([&, i] { go.fetch_add(1); while (go.load() < 3) {} r[i] = Call(t[i], kd); });
          for (auto& x : th) x.join();
          for (int i = 0; i < 3; ++i) Ev("call", t[i], One(r[i]), kd);
          break;
        }
        default: { const int t = (int)g.below(kTUs), kd = (int)g.below(4); Ev("call", t, One(Call(t, kd)), kd); Ev("init", hwy::GetChosenTarget().IsInitialized(), t == 6 ? hwy::GetChosenTarget().IsInitialized() : true); }
      }
    }
    Ev("supported", Set(hwy::SupportedTargets()));
    for (int t = 0; t < kTUs; ++t) Ev("call", t, One(Call(t, 0)), 0);
    End();
  }
  return Done();
}
