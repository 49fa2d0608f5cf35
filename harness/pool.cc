// Runs the real thread pool under the deterministic scheduler and records API-level events.
#include "sched/sched.h"
#include "sched/trace.h"
#include <cpuid.h>
#include <x86intrin.h>
#include <cmath>
#include <algorithm>
#include <limits>
#include <initializer_list>
#include "hwy/base.h"
#include "hwy/timer.h"
static int g_waitpkg = 0, g_mwaitx = 0;
static inline void verif_cpuid_count(uint32_t level, uint32_t count, uint32_t& a, uint32_t& b, uint32_t& c, uint32_t& d) {
  a = b = c = d = 0;
  if (level == 0) { a = 7; const char* v = g_mwaitx ? "AuthenticAMD" : "GenuineIntel"; memcpy(&b, v, 4); memcpy(&d, v + 4, 4); memcpy(&c, v + 8, 4); }
  if (level == 7) c = g_waitpkg ? (1u << 5) : 0;
  if (level == 0x80000000u) a = 0x80000008u;
  if (level == 0x80000001u) c = g_mwaitx ? (1u << 29) : 0;
}
#undef __cpuid_count
#define __cpuid_count(l, n, a, b, c, d) verif_cpuid_count(l, n, a, b, c, d)
#undef __cpuid
#define __cpuid(l, a, b, c, d) verif_cpuid_count(l, 0, a, b, c, d)
namespace hwy { namespace timer {
static vs::Rng g_timer_rng; static uint64_t g_now = 1000;
inline uint64_t verif_Start() { g_now += 50 + g_timer_rng.below(5000); return g_now; }
inline uint64_t verif_Stop() { return verif_Start(); }
} }
#undef HWY_ENABLE_SPIN_ASM
#define HWY_ENABLE_SPIN_ASM 0
static inline void verif_monitor(const void* p) { vs::MonitorArm(p); }
static inline void verif_wait() { vs::MonitorWait(); }
#define _mm_monitorx(p, e, h) verif_monitor(p)
#define _mm_mwaitx(e, h, c) verif_wait()
#define _umonitor(p) verif_monitor(p)
#define _umwait(c, d) verif_wait()
#define Start verif_Start
#define Stop verif_Stop
#include "sched/sched_macros.h"
#include "hwy/contrib/thread_pool/thread_pool.h"
#undef Start
#undef Stop
#undef atomic
#undef thread
#undef syscall

using vt::L;

struct Op { char kind; long n; uint64_t begin; };
struct Program { size_t nt; std::vector<Op> ops; int spin; };

static vs::Plain g_arg, g_res[256];
static bool g_points_in_tasks = true;

static void Body(const Program& p) {
  void* mem = nullptr;
  if (posix_memalign(&mem, 4096, sizeof(hwy::ThreadPool))) abort();
  memset(mem, 0xA5, sizeof(hwy::ThreadPool));
  L().Ev("open", static_cast<long>(p.nt));
  hwy::ThreadPool* pool = new (mem) hwy::ThreadPool(p.nt);
  L().Ev("opened", static_cast<long>(pool->NumWorkers()));
  for (const Op& op : p.ops) {
    if (op.kind == 'S' || op.kind == 'B') {
      L().Ev("mode", op.kind == 'S');
      pool->SetWaitMode(op.kind == 'S' ? hwy::PoolWaitMode::kSpin : hwy::PoolWaitMode::kBlock);
      L().Ev("moded");
      continue;
    }
    const long n = op.n;
    const uint64_t begin = op.begin;
    for (long i = 0; i < n && i < 256; ++i) g_res[i] = vs::Plain();
    L().Ev("run", n);
    if (!g_arg.Write()) L().Ev("race", 0);
    pool->Run(begin, begin + static_cast<uint64_t>(n), [&](uint64_t task, size_t worker) {
      const uint64_t off = task - begin;
      const long t = off < 100000 ? static_cast<long>(off) : -1;
      const long w = worker < 100000 ? static_cast<long>(worker) : -1;
      L().Ev("s", t, w);
      if (!g_arg.Read()) L().Ev("race", 1);
      if (g_points_in_tasks) vs::Point();
      if (t >= 0 && t < 256 && !g_res[t].Write()) L().Ev("race", 2);
      L().Ev("e", t, w);
    });
    for (long i = 0; i < n && i < 256; ++i) if (!g_res[i].Read()) { L().Ev("race", 3); break; }
    L().Ev("ret");
  }
  L().Ev("close");
  pool->~ThreadPool();
  long live = 0;
  for (int i = 1; i < vs::S().nf; ++i) live += vs::S().f[i].state != vs::kDone;
  L().Ev("closed", live);
  free(mem);
}

static std::string Describe(const Program& p, uint64_t seed, int policy) {
  std::string s = "nt=" + std::to_string(p.nt) + " spin=" + std::to_string(p.spin) + " policy=" + std::to_string(policy) + " seed=" + std::to_string(seed) + " ops=";
  for (const Op& o : p.ops) { s += o.kind; if (o.kind == 'R') s += std::to_string(o.n) + "@" + std::to_string(o.begin); s += ' '; }
  return s;
}

static void Episode(const Program& p, uint64_t seed, vs::Policy pol, uint32_t stale, uint32_t spur) {
  vs::Sched& s = vs::S();
  s.rng.seed(seed);
  hwy::timer::g_timer_rng.seed(seed ^ 77);
  s.policy = pol; s.stale_pct = stale; s.spurious_pct = spur;
  g_waitpkg = p.spin == 1; g_mwaitx = p.spin == 2;
  g_arg = vs::Plain();
  s.change_points.clear();
  if (pol == vs::kPct) for (int i = 0; i < 3; ++i) s.change_points.push_back(1 + s.rng.below(300 * static_cast<uint32_t>(p.ops.size() + 1)));
  vt::CrashInfo() = Describe(p, seed, pol);
  L().Begin("\"nt\":" + std::to_string(p.nt));
  s.on_stuck = [](const char*) { L().Ev("stuck"); };
  vs::RunEpisode([&] { Body(p); });
  L().End(vt::CrashInfo());
}

int main(int argc, char** argv) {
  // pool <trace> <seed> <mode> <event budget> [hint file]
  L().Open(argv[1]);
  const uint64_t seed = strtoull(argv[2], nullptr, 10);
  const std::string mode = argv[3];
  const uint64_t budget = strtoull(argv[4], nullptr, 10);
  vt::InstallCrashHandler();
  vs::Rng g; g.seed(seed * 1000003 + std::hash<std::string>()(mode) % 1000);
  uint64_t stuck = 0, eps = 0;
  auto go = [&](const Program& p, uint64_t sd, vs::Policy pol, uint32_t stale, uint32_t spur) {
    Episode(p, sd, pol, stale, spur);
    ++eps;
    if (vs::S().stuck && ++stuck >= 3) { fflush(L().out); printf("{\"stuck\":%lu}\n", stuck); exit(0); }
  };
  const uint64_t begins[] = {0, 0, 1, 7, 0xFFFFFFFEull, 0x100000000ull, 0x7FFFFFFFFFFFFF00ull};
  if (mode == "small") {
    while (L().distinct_events < budget && eps < budget) {
      Program p;
      static const size_t nts[] = {0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8};
      p.nt = nts[g.below(12)];
      p.spin = static_cast<int>(g.below(3));
      const int nops = 1 + static_cast<int>(g.below(10));
      for (int i = 0; i < nops; ++i) {
        Op o{'R', 0, begins[g.below(7)]};
        const uint32_t k = g.below(10);
        if (k < 2) o.kind = k ? 'S' : 'B';
        else {
          const uint32_t nw = static_cast<uint32_t>(p.nt) + 1;
          switch (g.below(6)) {
            case 0: o.n = g.below(3); break;
            case 1: o.n = nw; break;
            case 2: o.n = nw + 1; break;
            case 3: o.n = nw + g.below(2 * nw + 1); break;
            case 4: o.n = 1 + g.below(nw); break;
            default: o.n = g.below(3 * nw + 2);
          }
        }
        p.ops.push_back(o);
      }
      const vs::Policy pol = static_cast<vs::Policy>(g.below(4));
      vs::S().starve.clear();
      if (p.nt) { vs::S().starve.push_back(1 + static_cast<int>(g.below(static_cast<uint32_t>(p.nt)))); if (g.chance(30)) vs::S().starve.push_back(0); }
      g_points_in_tasks = g.chance(80);
      go(p, g.next(), pol, g.chance(50) ? 0 : 30, g.chance(50) ? 0 : 15);
    }
  } else if (mode == "history") {
    // Long histories on few threads: every wait/barrier strategy switch is taken.
    while (L().distinct_events < budget && eps < budget) {
      Program p; p.nt = 1 + g.below(4); p.spin = static_cast<int>(g.below(3));
      const int nops = 20 + static_cast<int>(g.below(40));
      if (g.chance(60)) p.ops.push_back(Op{'S', 0, 0});
      for (int i = 0; i < nops; ++i) {
        Op o{'R', static_cast<long>(2 + g.below(2)), 0};
        if (g.chance(8)) o.kind = g.chance(50) ? 'S' : 'B';
        p.ops.push_back(o);
      }
      const vs::Policy pol = static_cast<vs::Policy>(g.below(4));
      vs::S().starve.clear(); vs::S().starve.push_back(1 + static_cast<int>(g.below(static_cast<uint32_t>(p.nt))));
      go(p, g.next(), pol, g.chance(70) ? 0 : 20, g.chance(70) ? 0 : 10);
    }
  } else if (mode == "max") {
    // Maximum thread count: directed histories with one late thread.
    while (L().distinct_events < budget && eps < budget) {
      Program p; p.nt = 60 + g.below(4); p.spin = 0;
      if (g.chance(15)) p.nt = 64 + g.below(2);  // clamped
      const bool directed = g.chance(50);  // align the epoch with counter values that were left behind
      if (directed) {
        const char m = g.chance(70) ? 'B' : 'S';
        for (uint32_t i = g.below(12); i != 0; --i) p.ops.push_back(Op{m, 0, 0});
      }
      const int nops = 4 + static_cast<int>(g.below(9));
      for (int i = 0; i < nops; ++i) {
        Op o{'R', static_cast<long>(2 + g.below(3)), 0};
        if (directed && i < 4) { p.ops.push_back(o); continue; }
        const uint32_t k = g.below(10);
        if (k < 2) o.kind = 'S'; else if (k < 4) o.kind = 'B';
        p.ops.push_back(o);
      }
      p.ops.push_back(Op{'R', 64, 0});
      vs::S().starve.clear(); vs::S().starve.push_back(static_cast<int>(58 + g.below(6)));
      g_points_in_tasks = true;
      go(p, g.next(), vs::kStarve, 0, 0);
    }
  } else if (mode == "one") {
    // pool trace seed one policy nt spin stale spur starve ops...   (replay of a single episode)
    Program p; int i = 4; const vs::Policy pol = static_cast<vs::Policy>(atoi(argv[i++])); p.nt = strtoul(argv[i++], nullptr, 10); p.spin = atoi(argv[i++]);
    const uint32_t stale = static_cast<uint32_t>(atoi(argv[i++])), spur = static_cast<uint32_t>(atoi(argv[i++])); vs::S().starve = {atoi(argv[i++])};
    for (; i < argc; ++i) p.ops.push_back(Op{argv[i][0], atol(argv[i] + 1), 0});
    go(p, seed, pol, stale, spur);
  } else if (mode == "hints") {
    // Schedules generated by TLC from ThreadPool.tla: lines "nt nops n1 n2 .. | tid tid ..."
    FILE* f = fopen(argv[5], "r");
    char* line = nullptr; size_t cap = 0;
    while (f && getline(&line, &cap, f) > 0) {
      char* save = nullptr; char* tok = strtok_r(line, " \n", &save);
      if (!tok) continue;
      Program p; p.nt = strtoul(tok, nullptr, 10); p.spin = 0;
      long nops = atol(strtok_r(nullptr, " \n", &save));
      for (long i = 0; i < nops; ++i) { char* t = strtok_r(nullptr, " \n", &save); if (t[0] == 'S' || t[0] == 'B') p.ops.push_back(Op{t[0], 0, 0}); else p.ops.push_back(Op{'R', atol(t), 0}); }
      vs::S().hints.clear();
      while ((tok = strtok_r(nullptr, " \n", &save))) vs::S().hints.push_back(atoi(tok));
      g_points_in_tasks = true;
      go(p, g.next(), vs::kHints, 0, 0);
    }
  }
  fflush(L().out);
  printf("{\"episodes\":%lu,\"distinct\":%lu,\"events\":%lu,\"distinct_events\":%lu,\"points\":%lu,\"stuck\":%lu}\n", L().episodes, L().distinct, L().events, L().distinct_events, vs::S().total_points, stuck);
  return 0;
}
