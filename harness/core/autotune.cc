// P05: AutoTune under arbitrary cost histories.
#include "hwy/auto_tune.h"
#include <cmath>
#include "trace.h"
using namespace vt;
static bool g_big = false;
template <size_t kMin> void Episode(Rng& g) {
  const int n = 1 + static_cast<int>(g.below(3) ? g.below(6) : g.below(30));
  Begin("\"n\":" + std::to_string(n) + ",\"kmin\":" + std::to_string(kMin));
  hwy::AutoTune<int, kMin> at;
  Ev("has", at.HasCandidates());
  std::vector<int> cand; for (int i = 0; i < n; ++i) cand.push_back(1000 + 7 * i);
  at.SetCandidates(cand);
  Ev("has", at.HasCandidates());
  // Cost generators: each candidate has its own range; ranges are disjoint, nested, equal or drifting.
  const int style = static_cast<int>(g.below(6));
  std::vector<int> lo(n), wid(n);
  for (int i = 0; i < n; ++i) {
    lo[i] = style == 0 ? 100 * (i + 1) : style == 1 ? 100 * (n - i) : style == 2 ? 500 : style == 3 ? 1 + (int)g.below(2000) : style == 4 ? 1000 + (int)g.below(100) : (g.below(2) ? 0 : 1000);
    wid[i] = style == 2 ? 1000 : style == 0 || style == 1 ? 50 : 1 + (int)g.below(600);
  }
  const int shift = g.below(3) == 0 ? (int)g.below(40) : 0;
  const int max_reports = n * (int)(3 * kMin / 2 + 1) + 5;
  const bool spikes = g.below(3) == 0;
  for (int k = 0; k < max_reports; ++k) {
    const int* best = at.Best();
    if (best) break;
    const int c = at.NextConfig();
    const int again = at.NextConfig();
    const int i = (c - 1000) / 7;
    int cost = lo[i % n] + (int)g.below((uint32_t)wid[i % n]);
    if (style == 5 && g.below(2)) lo[i % n] = (int)g.below(3000);
    if (spikes && g.below(6) == 0) cost = cost * 5 + 3000;
    if (cost > 60000) cost = 60000;
    at.NotifyCost(static_cast<uint64_t>(cost) << shift);
    auto est = [&](int j) {
      hwy::CostDistribution d = at.Costs()[(size_t)j];   // a copy: estimating may change its state
      const double e = d.EstimateCost() / std::ldexp(1.0, shift) * 1024.0;
      return e < 2e9 && e > -1e3 ? static_cast<int>(e) : -2000000;
    };
    // Estimates are meaningful once every candidate was measured.
    std::vector<int> es;
    if (k + 1 >= n) for (int j = 0; j < n; ++j) es.push_back(est(j));
    Ev("report", c, again, cost, es, at.Best() ? *at.Best() : -1, at.Best() != nullptr);
  }
  const int* b1 = at.Best();
  Ev("best", b1 ? *b1 : -1);
  if (b1) {
    const auto c = at.Candidates();
    std::vector<int> cs(c.data(), c.data() + c.size());
    Ev("cands", cs, b1 >= c.data() && b1 < c.data() + c.size());
    Ev("best", *at.Best());
  }
  End();
}
// Many candidates with constant costs: their estimates are known without recording them.
template <size_t kMin> void Many(Rng& g, int n) {
  Begin("\"n\":" + std::to_string(n) + ",\"kmin\":" + std::to_string(kMin) + ",\"const\":1");
  hwy::AutoTune<int, kMin> at;
  std::vector<int> cand; for (int i = 0; i < n; ++i) cand.push_back(1000 + 7 * i);
  Ev("has", at.HasCandidates());
  at.SetCandidates(cand);
  Ev("has", at.HasCandidates());
  std::vector<int> cost; for (int i = 0; i < n; ++i) cost.push_back(500 + (int)g.below(g.below(4) ? 30 : 500));
  for (int k = 0; k < n * (int)(3 * kMin / 2 + 1) + 5; ++k) {
    if (at.Best()) break;
    const int c = at.NextConfig();
    const int again = at.NextConfig();
    const int x = cost[(size_t)((c - 1000) / 7) % (size_t)n];
    at.NotifyCost((uint64_t)x);
    Ev("report", c, again, x, std::vector<int>(), at.Best() ? *at.Best() : -1, at.Best() != nullptr);
  }
  Ev("best", at.Best() ? *at.Best() : -1);
  End();
}
int main(int argc, char** argv) {
  const Args a = Init(argc, argv);
  Rng g(a.seed);
  for (int i = 0; i < (a.thorough ? 1500 : 90); ++i) { Episode<1>(g); Episode<2>(g); Episode<3>(g); Episode<5>(g); Episode<10>(g); Episode<15>(g); Episode<20>(g); }
  Many<2>(g, 520); Many<1>(g, 300);
  if (a.thorough) { Many<2>(g, 1100); Many<3>(g, 257); }
  return Done();
}
