// P42: runs the micro-benchmark with a simulated clock; records every timed interval, the
// calls in it, and the results.
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include "bench_pre.h"
#include "hwy/nanobenchmark.h"
#include "trace.h"
namespace {
struct Interval { std::vector<uint64_t> calls; uint64_t loop, ticks; };
struct Group { std::vector<uint64_t> calls; uint64_t loop; std::vector<uint64_t> samples; };
uint64_t now_ = 0, loop_cost = 0, resolution = 1, t_start = 0; bool have_timer = true;
uint64_t loops = 0; std::vector<uint64_t> calls; std::vector<Group> groups;
int noise = 0; uint64_t amp = 0, period = 5, samples_seen = 0; vt::Rng* rng = nullptr;
std::map<uint64_t, uint64_t> cost; bool bad_arg = false; const void* want_arg = nullptr; size_t total_calls = 0;
uint64_t Noise(bool empty) {
  const uint64_t k = samples_seen++;
  switch (noise) {
    case 1: return k % period == period - 1 ? amp + rng->below(static_cast<uint32_t>(amp) + 1) : 0;   // rare spikes
    case 2: return empty ? 0 : rng->below(static_cast<uint32_t>(amp) + 1);               // jitter
    case 3: return empty ? 0 : (k & 1) * amp;                                            // two modes
    case 4: return empty ? 0 : (k % 8) * amp;                                            // steps
    case 5: return empty ? 0 : rng->below(3) ? 0 : rng->below(static_cast<uint32_t>(amp) + 1);
    default: return 0;
  }
}
}
namespace hwy {
namespace timer {
Ticks verif_Start() { calls.clear(); loops = 0; return t_start = now_; }
Ticks verif_Stop() {
  now_ += resolution + Noise(calls.empty());
  const uint64_t d = now_ - t_start;
  if (groups.empty() || groups.back().calls != calls || groups.back().loop != loops) groups.push_back({calls, loops, {}});
  groups.back().samples.push_back(d);
  return now_;
}
}
void verif_Loop() { loops += loop_cost; now_ += loop_cost; }
namespace platform {
bool HaveTimerStop(char* c) { strcpy(c, "simulated"); return have_timer; }
double InvariantTicksPerSecond() { return 1E6; }
double Now() { return 0.0; }
uint64_t TimerResolution() { return resolution; }
bool GetCpuString(char* c) { strcpy(c, "simulated"); return true; }
}
}
namespace {
hwy::FuncOutput TheFunc(const void* arg, hwy::FuncInput in) {
  bad_arg |= arg != want_arg; calls.push_back(in); now_ += cost[in]; ++total_calls; return in * 3;
}
struct Episode {
  std::vector<hwy::FuncInput> in; std::map<uint64_t, uint64_t> cost; hwy::Params p; int noise; uint64_t amp, period, res, loop, start, tps, rel; bool timer, closure;
};
std::string RunOne(const Episode& e, uint64_t seed) {
  vt::Rng r(seed); rng = &r;
  now_ = e.start; resolution = e.res; loop_cost = e.loop; noise = e.noise; amp = e.amp; period = e.period; cost = e.cost; have_timer = e.timer;
  std::vector<hwy::Result> res(e.in.size() + 2);
  for (auto& x : res) { x.input = 0xABCDEF; x.ticks = -7.0f; x.variability = -7.0f; }
  size_t n;
  static const uint8_t kArg = 0;
  if (e.closure) {
    const uint64_t key = 5; (void)key;
    auto f = [key](hwy::FuncInput in) { want_arg = nullptr; return TheFunc(key == 5 ? nullptr : &kArg, in); };
    n = hwy::MeasureClosure(f, e.in.data(), e.in.size(), res.data(), e.p);
  } else { want_arg = &kArg; n = hwy::Measure(&TheFunc, &kArg, e.in.data(), e.in.size(), res.data(), e.p); }
  bool beyond = false;
  // A failed measurement may leave partial results.
  for (size_t i = n ? n : e.cost.size() < e.in.size() ? e.cost.size() : e.in.size(); i < res.size(); ++i) beyond |= res[i].input != 0xABCDEF || res[i].ticks != -7.0f || res[i].variability != -7.0f;
  if (n > e.in.size()) return "";
  std::string s = "\"groups\":[";
  for (size_t i = 0; i < groups.size(); ++i) s += (i ? ",{" : "{") + std::string("\"calls\":") + vt::J(groups[i].calls) + ",\"loop\":" + vt::J(groups[i].loop) + ",\"samples\":" + vt::J(groups[i].samples) + "}";
  s += "],\"results\":[";
  for (size_t i = 0; i < n; ++i) {
    const double t = res[i].ticks * 1024.0, v = res[i].variability * 1E6;
    s += (i ? ",[" : "[") + vt::J(static_cast<unsigned long>(res[i].input)) + "," + (t >= 0 && t < 2E9 ? vt::J(static_cast<unsigned long>(t + 0.5)) : "-1") + "," + (v >= 0 && v < 2E9 ? vt::J(static_cast<unsigned long>(v + 0.5)) : "-1") + "]";
  }
  return s + "],\"beyond\":" + vt::J(beyond || bad_arg);
}
}
int main(int argc, char** argv) {
  FILE* out = fopen(argv[1], "w");
  const uint64_t seed = strtoull(argv[2], nullptr, 10); const bool th = !strcmp(argv[3], "thorough"); const int part = atoi(argv[4]);
  vt::Rng g(seed * 100 + static_cast<uint64_t>(part));
  const int reps = th ? 4000 : 400;
  for (int k = 0; k < reps; ++k) {
    Episode e;
    const size_t distinct = 1 + g.below(4), n = k % 7 == 0 ? 1 : 1 + g.below(6);
    std::vector<uint64_t> vals; for (size_t i = 0; i < distinct; ++i) vals.push_back(g.below(3) ? g.below(20) : g.below(1000000));
    const bool zero = k % 29 == 28;
    for (uint64_t v : vals) e.cost[v] = zero ? 0 : 1 + g.below(g.below(3) ? 12 : 300);
    for (size_t i = 0; i < n; ++i) e.in.push_back(vals[g.below(static_cast<uint32_t>(distinct))]);
    e.p.verbose = g.below(4) == 0; e.p.precision_divisor = 1 + g.below(g.below(3) ? 12 : 64); e.p.subset_ratio = 2 + g.below(3);
    e.tps = g.below(3) ? 0 : g.below(3000); e.p.seconds_per_eval = static_cast<double>(e.tps) * 1E-6;
    e.p.min_samples_per_eval = 5 + g.below(8); e.p.min_mode_samples = g.below(3) == 0 ? 1 : g.below(2) ? 20 : 1000000;
    e.rel = g.below(3) ? 2000 : g.below(200000); e.p.target_rel_mad = static_cast<double>(e.rel) * 1E-6; e.p.max_evals = 1 + g.below(3);
    e.noise = g.below(3) ? static_cast<int>(g.below(6)) : 0; e.amp = 1 + g.below(g.below(2) ? 5 : 400); e.period = 5 + g.below(4);
    e.res = 1 + g.below(g.below(4) ? 40 : 700); e.loop = g.below(2) ? g.below(4) : 0; e.start = k % 3 == 0 ? ~0ull - g.below(20000) : g.next() >> 2;
    e.timer = k % 41 != 40; e.closure = g.below(4) == 0; if (zero) e.loop = 0;
    // The number of calls, and thus the trace, stays small.
    { uint64_t mn = ~0ull; for (uint64_t v : e.in) mn = std::min(mn, e.cost[v] + e.loop); const uint64_t skip = mn ? (e.p.precision_divisor + mn - 1) / mn : 0; if (skip * e.in.size() > 60) { --k; continue; } }
    fflush(out);
    int pp[2]; if (pipe(pp)) return 3;
    const pid_t pid = fork();
    if (pid == 0) {
      close(pp[0]); alarm(60); if (!freopen("/dev/null", "w", stderr) || !freopen("/dev/null", "w", stdout)) _exit(79);
      const std::string r = RunOne(e, g.next());
      for (size_t w = 0; w < r.size();) { const ssize_t x = write(pp[1], r.data() + w, r.size() - w); if (x <= 0) _exit(80); w += static_cast<size_t>(x); }
      _exit(r.empty() ? 81 : 0);
    }
    close(pp[1]);
    std::string r; char buf[65536]; ssize_t m; while ((m = read(pp[0], buf, sizeof buf)) > 0) r.append(buf, static_cast<size_t>(m));
    close(pp[0]);
    int st = 0; waitpid(pid, &st, 0);
    const std::string crash = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "";
    std::vector<unsigned long> in(e.in.begin(), e.in.end()); std::string cs = "[";
    for (size_t i = 0; i < in.size(); ++i) cs += (i ? "," : "") + std::to_string(e.cost[in[i]]);
    fprintf(out, "{\"inputs\":%s,\"cost\":%s],\"noise\":%d,\"res\":%llu,\"divisor\":%zu,\"ratio\":%zu,\"minsamples\":%zu,\"minmode\":%zu,\"evals\":%zu,\"rel\":%llu,\"timer\":%d,\"crash\":\"%s\",%s}\n",
            vt::J(in).c_str(), cs.c_str(), e.noise, static_cast<unsigned long long>(e.res), e.p.precision_divisor, e.p.subset_ratio, e.p.min_samples_per_eval, e.p.min_mode_samples,
            e.p.max_evals, static_cast<unsigned long long>(e.rel), e.timer, crash.c_str(), crash.empty() ? r.c_str() : "\"groups\":[],\"results\":[],\"beyond\":0");
  }
  fclose(out);
  printf("{\"episodes\":%d}\n", reps);
  return 0;
}
