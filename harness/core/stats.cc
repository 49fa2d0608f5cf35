// P13: statistics and robust estimators.
#include "hwy/robust_statistics.h"
#include "hwy/stats.h"
#include <cmath>
#include "trace.h"
using namespace vt;
static std::vector<int> Q(double v, double scale) { return Bytes(static_cast<int64_t>(std::llround(v * scale))); }
static void Read(int id, hwy::Stats& s, bool pow2) {
  const double n = static_cast<double>(s.Count());
  Ev("count", id, static_cast<int>(s.Count()));
  if (s.Count() == 0) {
    Ev("empty", id, Q(s.Mean(), 1024), Q(s.Variance(), 1024), Q(s.SampleVariance(), 1024), Q(s.StandardDeviation(), 1024), Q(s.GeometricMean(), 1024), Q(s.Skewness(), 1000), Q(s.Kurtosis(), 1000));
    return;
  }
  (void)n;
  Ev("range", id, static_cast<int>(s.Min()), static_cast<int>(s.Max()));
  Ev("mean", id, Q(s.Mean(), 1024), Q(s.Mu1(), 1024));
  Ev("var", id, Q(s.Variance(), 1024), Q(s.StandardDeviation(), 1024), Q(s.SampleVariance(), 1024));
  Ev("mu", id, Q(s.Mu2(), 1024), Q(s.Mu3(), 1024), Q(s.Mu4(), 1024));
  Ev("skew", id, Q(s.SampleSkewness(), 1000), Q(s.Skewness(), 1000));
  Ev("kurt", id, Q(s.SampleKurtosis(), 1000), Q(s.Kurtosis(), 1000));
  if (pow2) Ev("geo", id, Q(std::log2(s.GeometricMean()), 1024));
}
static void StatsEpisode(Rng& g) {
  const int objs = 2 + static_cast<int>(g.below(3));
  Begin("\"kind\":\"stats\",\"objs\":" + std::to_string(objs));
  std::vector<hwy::Stats> s(objs);
  const bool pow2 = g.below(4) == 0;
  const int style = static_cast<int>(g.below(5));
  const int base = style == 3 ? 100000 : 0;
  int total = 0;
  const int ops = 6 + static_cast<int>(g.below(22));
  for (int k = 0; k < ops; ++k) {
    const int i = static_cast<int>(g.below(objs));
    switch (g.below(8)) {
      case 0: case 1: case 2: case 3: {
        const int reps = 1 + static_cast<int>(g.below(style == 2 ? 9 : 3));
        for (int r = 0; r < reps && total < 16; ++r, ++total) {
          int x = pow2 ? 1 << g.below(5) : style == 0 ? 1 + (int)g.below(3) : style == 1 ? (g.below(5) ? 5 : 1 + (int)g.below(20)) : 1 + (int)g.below(20);
          x += pow2 ? 0 : base;
          if (!pow2 && style == 4) x = 10 - x;
          s[i].Notify(static_cast<float>(x));
          Ev("notify", i, x);
        }
        break;
      }
      case 4: case 5: case 6: {
        const int j = static_cast<int>(g.below(objs));
        if (j == i || s[i].Count() + s[j].Count() > 16) break;
        s[i].Assimilate(s[j]); Ev("merge", i, j);
        if (g.below(2)) Read(i, s[i], pow2);
        break;
      }
      default: if (g.below(3) == 0) { s[i].Reset(); Ev("reset", i); } else Read(i, s[i], pow2);
    }
  }
  for (int i = 0; i < objs; ++i) Read(i, s[i], pow2);
  End();
}
template <class T> void RobustEpisode(Rng& g, const char* tname) {
  Begin(std::string("\"kind\":\"robust\",\"type\":\"") + tname + "\"");
  for (int rep = 0; rep < 6; ++rep) {
    const size_t n = 1 + g.below(rep < 3 ? 9 : 40);
    const int style = static_cast<int>(g.below(5));
    std::vector<T> v(n);
    for (auto& x : v) {
      if (style == 0) x = static_cast<T>(g.below(5));
      else if (style == 1) x = static_cast<T>(g.next());
      else if (style == 2) x = static_cast<T>(~T{0} - static_cast<T>(g.below(7)));
      else if (style == 3) x = static_cast<T>(g.below(4) ? 100 + g.below(3) : g.below(200));
      else x = static_cast<T>(g.below(2) ? g.below(3) : ~T{0} - g.below(3));
    }
    std::vector<std::vector<int>> in; for (T x : v) in.push_back(Bytes(x));
    auto w = v; const T med = hwy::robust_statistics::Median(w.data(), n);
    auto m = v; const T mad = hwy::robust_statistics::MedianAbsoluteDeviation(m.data(), n, med);
    auto c = v; hwy::robust_statistics::CountingSort(c.data(), n);
    std::vector<std::vector<int>> srt; for (T x : c) srt.push_back(Bytes(x));
    auto u = v; const T mode = hwy::robust_statistics::Mode(u.data(), n);
    Ev("robust", in, srt, Bytes(med), Bytes(mad), Bytes(mode));
  }
  End();
}
template <size_t N> void BinsEpisode(Rng& g) {
  // Only Print exposes the counts; they go to stderr, captured through a pipe file.
  Begin("\"kind\":\"bins\",\"n\":" + std::to_string(N));
  hwy::Bins<N> a, b;
  auto dump = [&](int id, hwy::Bins<N>& x) {
    fflush(stderr); const int save = dup(2); FILE* t = tmpfile(); dup2(fileno(t), 2);
    x.Print("cap"); fflush(stderr); dup2(save, 2); close(save);
    rewind(t); char line[100]; std::vector<int> v;
    while (fgets(line, sizeof line, t)) if (line[0] == ' ' && line[1] == ' ') v.push_back(atoi(line));
    fclose(t);
    Ev("bins", id, v);
  };
  for (int k = 0; k < 30; ++k) {
    const int id = static_cast<int>(g.below(2)); hwy::Bins<N>& x = id ? b : a;
    switch (g.below(9)) {
      case 7: if (id) { a.Assimilate(b); Ev("mergebins", 0, 1); } else { b.Assimilate(a); Ev("mergebins", 1, 0); } break;
      case 8: if (g.below(4) == 0) { x.Reset(); Ev("resetbins", id); } else dump(id, x); break;
      default: { const int i = static_cast<int>(g.below(N)); x.Notify(i); Ev("bin", id, i); }
    }
  }
  dump(0, a); dump(1, b);
  End();
}
int main(int argc, char** argv) {
  const Args a = Init(argc, argv);
  Rng g(a.seed);
  const int reps = a.thorough ? 20 : 1;
  for (int i = 0; i < 250 * reps; ++i) StatsEpisode(g);
  for (int i = 0; i < 60 * reps; ++i) { RobustEpisode<uint64_t>(g, "u64"); RobustEpisode<uint32_t>(g, "u32"); RobustEpisode<uint16_t>(g, "u16"); RobustEpisode<uint8_t>(g, "u8"); }
  for (int i = 0; i < 10 * reps; ++i) { BinsEpisode<1>(g); BinsEpisode<2>(g); BinsEpisode<10>(g); BinsEpisode<33>(g); }
  return Done();
}
