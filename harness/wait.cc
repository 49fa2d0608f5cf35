// P04: futex and spin waits of the real code under the deterministic scheduler.  Built twice: with
// the monitor intrinsics (redirected by macros) and with inline assembly (instructions replaced).
#include "sched/sched.h"
#include "sched/trace.h"
#include <cpuid.h>
#include <x86intrin.h>
#include <cmath>
#include <algorithm>
#include <limits>
#include <initializer_list>
#include "hwy/base.h"
struct Cpu { bool amd, mwaitx, waitpkg; uint32_t max; };
static Cpu g_cpu = {false, true, true, 7};
static inline void verif_cpuid_count(uint32_t level, uint32_t count, uint32_t& a, uint32_t& b, uint32_t& c, uint32_t& d) {
  a = b = c = d = 0;
  if (level == 0) { a = g_cpu.max; const char* v = g_cpu.amd ? "AuthenticAMD" : "GenuineIntel"; memcpy(&b, v, 4); memcpy(&d, v + 4, 4); memcpy(&c, v + 8, 4); }
  if (level == 7 && count == 0) c = g_cpu.waitpkg ? (1u << 5) : 0;
  if (level == 0x80000000u) a = 0x80000008u;
  if (level == 0x80000001u) c = g_cpu.mwaitx ? (1u << 29) : 0;
}
#undef __cpuid_count
#define __cpuid_count(l, n, a, b, c, d) verif_cpuid_count(l, n, a, b, c, d)
#undef __cpuid
#define __cpuid(l, a, b, c, d) verif_cpuid_count(l, 0, a, b, c, d)
extern "C" { const void* verif_arg; long verif_kind; }
using vt::L;
static void Fault() { L().Ev("fault", verif_kind); }
// 1: umonitor, 2: umwait, 3: monitorx, 4: mwaitx
extern "C" void verif_instr_c(uint64_t rax, uint64_t rbx, uint64_t rcx, uint64_t rdx) {
  const uint64_t arg = reinterpret_cast<uint64_t>(verif_arg);
  switch (verif_kind) {
    case 1: vs::MonitorArm(reinterpret_cast<const void*>(arg)); break;
    case 2: if (static_cast<uint32_t>(arg) & ~1u) Fault();
      if (static_cast<uint32_t>(rdx) != 0xFFFFFFFFu && vs::S().rng.chance(50)) { vs::Point(); break; }  // a deadline that may have passed
      vs::MonitorWait(); break;
    case 3: if (static_cast<uint32_t>(rcx) != 0) Fault(); vs::MonitorArm(reinterpret_cast<const void*>(rax)); break;
    case 4: if (static_cast<uint32_t>(rcx) & ~3u) Fault();
      if ((rcx & 2) && vs::S().rng.chance(50)) { vs::Point(); break; }
      vs::MonitorWait(); break;
  }
}
#ifdef VINTRIN
#undef HWY_ENABLE_SPIN_ASM
#define HWY_ENABLE_SPIN_ASM 0
static inline void verif_call(long kind, uint64_t a, uint64_t b, uint64_t c, uint64_t d, const void* arg) { verif_kind = kind; verif_arg = arg; verif_instr_c(a, b, c, d); }
#define _mm_monitorx(p, e, h) verif_call(3, reinterpret_cast<uint64_t>(p), 0, (e), (h), nullptr)
#define _mm_mwaitx(e, h, c) verif_call(4, (h), (c), (e), 0, nullptr)
#define _umonitor(p) verif_call(1, 0, 0, 0, 0, (p))
#define _umwait(c, d) verif_call(2, static_cast<uint32_t>(d), 0, 0, static_cast<uint64_t>(d) >> 32, reinterpret_cast<const void*>(static_cast<uint64_t>(c)))
#endif
#include "sched/sched_macros.h"
#include "hwy/contrib/thread_pool/futex.h"
#include "hwy/contrib/thread_pool/spin.h"
#undef atomic
#undef thread
#undef syscall
typedef std::verif_atomic<uint32_t> A;
struct alignas(128) Watched { A a{0}; A b{0}; };           // neighbours
struct alignas(128) Far { A a{0}; char pad[252]; A b{0}; };
static const uint32_t kVals[] = {0, 1, 2, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFFFu, 0x10000u, 0xFFFF0000u, 0x100u};
static void Ev(const char* n, long a, long b, const char* k, uint32_t v) {
  char buf[120]; snprintf(buf, sizeof buf, "%s[\"%s\",%ld,%ld,\"%s\",\"%x\"]", L().ep.empty() ? "" : ",", n, a, b, k, v); L().ep += buf; L().cur_events++;
}
static vs::Plain g_slot[64];
enum Kind { kBlock, kPauseD, kPauseE, kMonD, kMonE, kUmonD, kUmonE };
static const char* kName[] = {"block", "spin", "eq", "spin", "eq", "spin", "eq"};
template <class S> static uint32_t Spin(const S& s, Kind k, uint32_t v, A& x) {
  if (k == kPauseD || k == kMonD || k == kUmonD) return s.UntilDifferent(v, x).current;
  s.UntilEqual(v, x); return v;
}
static uint32_t Wait(Kind k, uint32_t v, A& x) {
  switch (k) {
    case kBlock: return hwy::BlockUntilDifferent(v, x);
    case kPauseD: case kPauseE: return Spin(hwy::SpinPause(), k, v, x);
    case kMonD: case kMonE: return Spin(hwy::SpinMonitorX(), k, v, x);
    default: return Spin(hwy::SpinUMonitor(), k, v, x);
  }
}
struct Plan { int waiters, writers, nwaits, nstores, kinds, skipwake; bool unique, far, many; uint64_t seed; };
static void Body(const Plan& p) {
  vs::Rng g; g.seed(p.seed);
  static Watched w_; static Far f_;
  new (&w_) Watched(); new (&f_) Far();
  A* x[2] = {p.far ? &f_.a : &w_.a, p.far ? &f_.b : &w_.b};
  for (auto& s : g_slot) s = vs::Plain();
  uint32_t next = 1;
  std::vector<int> tids;
  for (int i = 0; i < p.writers; ++i) {
    const uint64_t sd = g.next();
    tids.push_back(vs::Spawn([&, i, sd] {
      vs::Rng r; r.seed(sd);
      for (int k = 0; k < p.nstores; ++k) {
        const int loc = p.many ? static_cast<int>(r.below(2)) : 0;
        uint32_t v;
        if (p.unique) { v = next++; if (v < 64) g_slot[v].Write(); } else v = kVals[r.below(9)];
        x[loc]->store(v, std::memory_order_release);
        Ev("set", loc + 1, i, "", v);
        if (!r.chance(static_cast<uint32_t>(p.skipwake))) { hwy::WakeAll(*x[loc]); Ev("wake", loc + 1, i, "", 0); }
      }
    }));
  }
  for (int i = 0; i < p.waiters; ++i) {
    const uint64_t sd = g.next();
    tids.push_back(vs::Spawn([&, i, sd] {
      vs::Rng r; r.seed(sd);
      uint32_t seen[2] = {0, 0};
      for (int k = 0; k < p.nwaits; ++k) {
        const int loc = p.many ? static_cast<int>(r.below(2)) : 0;
        const Kind kind = static_cast<Kind>(p.kinds == 0 ? 0 : p.kinds == 1 ? r.below(7) : p.kinds == 2 ? 3 + r.below(4) : (i == 0 ? 0 : r.below(7)));
        uint32_t v = seen[loc];
        if (kName[kind][0] == 'e') v = p.unique ? seen[loc] + r.below(3) : kVals[r.below(9)];
        else if (!p.unique && r.chance(25)) v = kVals[r.below(9)];
        Ev("wait", loc + 1, i + 1, kName[kind], v);
        const uint32_t got = Wait(kind, v, *x[loc]);
        Ev("ret", loc + 1, i + 1, kName[kind], got);
        seen[loc] = got;
        if (p.unique && got && got < 64 && !g_slot[got].Read()) L().Ev("race", got);
      }
    }));
  }
  for (int t : tids) vs::Join(t);
}
static void Detect() {
  for (int i = 0; i < 16; ++i) {
    g_cpu = Cpu{(i & 1) != 0, (i & 2) != 0, (i & 4) != 0, (i & 8) ? 7u : 6u};
    for (int dis = 0; dis < 16; ++dis) {
      L().Begin("");
      const hwy::SpinType t = hwy::DetectSpin(dis);
      int called = -1;
      hwy::CallWithSpin(t, [&](auto spin) { called = static_cast<int>(spin.Type()); });
      char b[160]; snprintf(b, sizeof b, "[\"detect\",%d,%d,%d,%d,[%d,%d,%d],%d,%d]", i & 1, (i >> 1) & 1, (i >> 2) & 1, (i >> 3) & 1, (dis >> 1) & 1, (dis >> 2) & 1, (dis >> 3) & 1, static_cast<int>(t), called);
      L().ep = b; L().cur_events = 1;
      L().End("detect");
    }
  }
  for (int t = 1; t <= 3; ++t) {
    L().Begin(""); int called = -1;
    hwy::CallWithSpin(static_cast<hwy::SpinType>(t), [&](auto spin) { called = static_cast<int>(spin.Type()); });
    char b[80]; snprintf(b, sizeof b, "[\"call\",%d,%d]", t, called); L().ep = b; L().cur_events = 1; L().End("call");
  }
}
int main(int argc, char** argv) {
  // wait <trace> <seed> <tier> <distinct event budget>
  L().Open(argv[1]);
  const uint64_t seed = strtoull(argv[2], nullptr, 10);
  const uint64_t budget = strtoull(argv[4], nullptr, 10);
  vt::InstallCrashHandler(); alarm(300);
  vs::Rng g; g.seed(seed * 7919 + 3);
  Detect();
  uint64_t stuck = 0, eps = 0;
  while (L().distinct_events < budget && eps < budget) {
    Plan p;
    p.waiters = 1 + static_cast<int>(g.below(4)); p.writers = 1 + static_cast<int>(g.below(3));
    p.nwaits = 1 + static_cast<int>(g.below(4)); p.nstores = 1 + static_cast<int>(g.below(5));
    p.kinds = static_cast<int>(g.below(4)); p.skipwake = g.chance(70) ? 0 : 30;
    p.unique = g.chance(50); p.far = g.chance(40); p.many = g.chance(30); p.seed = g.next();
    if (p.unique && p.writers * p.nstores > 60) continue;
    vs::Sched& s = vs::S();
    s.rng.seed(g.next());
    s.policy = static_cast<vs::Policy>(g.below(4)); s.stale_pct = g.chance(50) ? 0 : 30; s.spurious_pct = g.chance(50) ? 0 : 15;
    s.starve = {1 + static_cast<int>(g.below(static_cast<uint32_t>(p.waiters + p.writers)))};
    s.change_points.clear();
    if (s.policy == vs::kPct) for (int i = 0; i < 3; ++i) s.change_points.push_back(1 + s.rng.below(60));
    L().Begin("");
    s.on_stuck = [](const char*) { L().Ev("stuck"); };
    char info[120]; snprintf(info, sizeof info, "waiters %d writers %d kinds %d policy %d plan %lu", p.waiters, p.writers, p.kinds, static_cast<int>(s.policy), static_cast<unsigned long>(p.seed));
    vt::CrashInfo() = info;
    if (vs::RunEpisode([&] { Body(p); })) L().Ev("end"); else ++stuck;
    L().End(info); ++eps;
  }
  fflush(L().out);
  printf("{\"episodes\":%lu,\"distinct\":%lu,\"distinct_events\":%lu,\"stuck\":%lu}\n", L().episodes, L().distinct, L().distinct_events, stuck);
  return 0;
}
