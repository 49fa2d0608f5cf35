// P40: runs histories of zones with a simulated clock and records the printed report.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <string>
#include <thread>
#include <vector>
#include "hwy/aligned_allocator.h"
#include "hwy/base.h"
#include "hwy/cache_control.h"
#include "hwy/contrib/sort/vqsort.h"
#include "hwy/robust_statistics.h"
#include "hwy/timer.h"
#include "trace.h"

// The clock of a thread only advances when the history says so, and by g_tick when a zone is left.
namespace hwy { namespace timer {
static thread_local uint64_t g_now = 0;
static uint64_t g_tick = 0;
inline Ticks verif_Start() { return g_now; }
inline Ticks verif_Stop() { return g_now += g_tick; }
} 
namespace platform {
bool HaveTimerStop(char*) { return true; }
double InvariantTicksPerSecond() { return 1E6; }     // six decimals of the report are ticks
double Now() { return 0.0; }
uint64_t TimerResolution() { return 1; }
bool GetCpuString(char* c) { strcpy(c, "simulated"); return true; }
}
#if HWY_HAVE_INTEGER64
#endif
void VQSort(uint128_t* HWY_RESTRICT k, size_t n, SortDescending) { std::sort(k, k + n, [](const uint128_t& a, const uint128_t& b) { return a.hi != b.hi ? a.hi > b.hi : a.lo > b.lo; }); }
void VQSort(uint128_t* HWY_RESTRICT k, size_t n, SortAscending) { std::sort(k, k + n, [](const uint128_t& a, const uint128_t& b) { return a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo; }); }
void VQSort(K64V64* HWY_RESTRICT, size_t, SortAscending) {}
}
#define Start verif_Start
#define Stop verif_Stop
#define PROFILER_ENABLED 1
#define PROFILER_THREAD_STORAGE 1ULL
#include "hwy/profiler.h"
#undef Start
#undef Stop

// The storage of a thread ends just before an inaccessible page (see the --wrap option in p40.py).
extern "C" void* __real__ZN3hwy20AllocateAlignedBytesEmPFPvS0_mES0_(size_t, hwy::AllocPtr, void*);
extern "C" void* __wrap__ZN3hwy20AllocateAlignedBytesEmPFPvS0_mES0_(size_t n, hwy::AllocPtr a, void* o) {
  if (n != (1u << 20)) return __real__ZN3hwy20AllocateAlignedBytesEmPFPvS0_mES0_(n, a, o);
  const size_t page = 4096;
  char* p = static_cast<char*>(mmap(nullptr, n + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (p == MAP_FAILED || mprotect(p + page, n, PROT_READ | PROT_WRITE)) _exit(77);
  return p + page;
}
namespace {
using Ev = std::vector<uint64_t>;
struct Run { const std::vector<Ev>* h; size_t i; };
void Body(Run& r);
static const char kDup1[] = "dup"; static const char kDup2[] = "dup"; static const char kDup3[] = "dup";
template <int N> HWY_NOINLINE void Templ(Run& r) { PROFILER_FUNC; Body(r); }
HWY_NOINLINE void Z0(Run& r) { PROFILER_ZONE("alpha"); Body(r); }
HWY_NOINLINE void Z1(Run& r) { PROFILER_ZONE("pha"); Body(r); }
HWY_NOINLINE void Z2(Run& r) { PROFILER_ZONE("alph"); Body(r); }
HWY_NOINLINE void Z3(Run& r) { PROFILER_ZONE("a zone whose name has more than forty characters in it"); Body(r); }
HWY_NOINLINE void Z4(Run& r) { const hwy::Zone zone(kDup1); Body(r); }
HWY_NOINLINE void Z5(Run& r) { const hwy::Zone zone(kDup2); Body(r); }
HWY_NOINLINE void Z6(Run& r) { const hwy::Zone zone(kDup3); Body(r); }
HWY_NOINLINE void Z10(Run& r) { PROFILER_ZONE("Dummy"); Body(r); }
HWY_NOINLINE void Z11(Run& r) { PROFILER_ZONE("beta"); Body(r); }
HWY_NOINLINE void Z12(Run& r) { PROFILER_ZONE("gamma"); Body(r); }
typedef void (*Fn)(Run&);
const Fn kZones[] = {Z0, Z1, Z2, Z3, Z4, Z5, Z6, Templ<1>, Templ<2>, Templ<3>, Z10, Z11, Z12};
const char* kNames[] = {"alpha", "pha", "alph", "a zone whose name has more than forty characters in it", "dup", "dup", "dup", "Templ", "Templ", "Templ", "Dummy", "beta", "gamma"};
constexpr size_t kNum = sizeof(kZones) / sizeof(kZones[0]);
const std::vector<Ev> kNone = {{3}};
// Executes the events of one zone up to and including its end.
void Body(Run& r) {
  for (;;) {
    if (r.i >= r.h->size()) return;
    const Ev& e = (*r.h)[r.i++];
    if (e[0] == 3) return;
    if (e[0] == 2) hwy::timer::g_now += e[1];
    if (e[0] == 1) kZones[e[1]](r);
    if (e[0] == 4) for (uint64_t k = 0; k < e[3]; ++k) { const std::vector<Ev> w = {{2, e[2]}, {3}}; Run q{&w, 0}; kZones[e[1]](q); }
  }
}
using Threads = std::vector<std::vector<Ev>>;
std::string Report(const Threads& ts, uint64_t start, uint64_t tick, bool concurrent) {
  hwy::timer::g_tick = tick;
  auto one = [&](size_t t) { hwy::timer::g_now = start * (t + 1); Run r{&ts[t], 0}; while (r.i < ts[t].size()) Body(r); };
  if (ts.size() == 1) one(0);
  else {
    std::vector<std::thread> v;
    for (size_t t = 0; t < ts.size(); ++t) { v.emplace_back(one, t); if (!concurrent) { v.back().join(); v.pop_back(); } }
    for (auto& x : v) x.join();
  }
  FILE* f = tmpfile();
  const int old = dup(1);
  fflush(stdout); dup2(fileno(f), 1);
  PROFILER_PRINT_RESULTS();
  fflush(stdout); dup2(old, 1); close(old);
  fseek(f, 0, SEEK_SET);
  std::string rows = "["; char line[4096];
  while (fgets(line, sizeof line, f)) {
    const char* colon = strrchr(line, ':');
    if (!colon || strncmp(line, "Total analysis", 14) == 0) continue;
    std::string name(line, static_cast<size_t>(colon - line));
    while (!name.empty() && name.back() == ' ') name.pop_back();
    size_t calls = 0; char avg[64]; double sec = 0;
    if (sscanf(colon + 1, "%zu x %63s = %lf", &calls, avg, &sec) != 3) continue;
    const uint64_t ticks = static_cast<uint64_t>(sec * 1E6 + 0.5);
    if (rows.size() > 1) rows += ",";
    rows += "[" + vt::J(name) + "," + std::to_string(calls) + "," + (ticks > 2000000000 ? "-1" : std::to_string(ticks)) + "]";
  }
  return rows + "]";
}
void Episode(FILE* out, const Threads& ts, uint64_t start, uint64_t tick, bool concurrent) {
  fflush(out);
  int pp[2]; if (pipe(pp)) exit(3);
  const pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]); alarm(60); if (!freopen("/dev/null", "w", stderr)) _exit(79);
    const std::string r = Report(ts, start, tick, concurrent);
    if (write(pp[1], r.data(), r.size()) != static_cast<ssize_t>(r.size())) _exit(80);
    _exit(0);
  }
  close(pp[1]);
  std::string r; char buf[4096]; ssize_t n;
  while ((n = read(pp[0], buf, sizeof buf)) > 0) r.append(buf, static_cast<size_t>(n));
  close(pp[0]);
  int st = 0; waitpid(pid, &st, 0);
  const std::string crash = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "";
  std::string names = "["; for (size_t i = 0; i < kNum; ++i) names += (i ? "," : "") + vt::J(kNames[i]);
  // Upper bound on how often a storage of 1 MiB was full; every part of a thread leaves two packets per zone.
  uint64_t passes = 0;
  for (const auto& h : ts) { uint64_t packets = 0; for (const Ev& e : h) packets += e[0] == 4 ? 2 * e[3] : e[0] != 2; passes += packets / 120000; }
  fprintf(out, "{\"tick\":%llu,\"passes\":%llu,", static_cast<unsigned long long>(tick), static_cast<unsigned long long>(passes));
  fprintf(out, "\"names\":%s],\"crash\":\"%s\",\"rows\":%s,\"threads\":[", names.c_str(), crash.c_str(), crash.empty() && !r.empty() ? r.c_str() : "[]");
  for (size_t t = 0; t < ts.size(); ++t) {
    fprintf(out, "%s[", t ? "," : "");
    for (size_t k = 0; k < ts[t].size(); ++k) { fprintf(out, "%s[", k ? "," : ""); for (size_t x = 0; x < ts[t][k].size(); ++x) fprintf(out, "%s%llu", x ? "," : "", static_cast<unsigned long long>(ts[t][k][x])); fprintf(out, "]"); }
    fprintf(out, "]");
  }
  fprintf(out, "]}\n");
}
Threads Random(vt::Rng& g, bool big) {
  Threads ts(g.below(3) == 0 ? 2 + g.below(6) : 1);
  for (auto& h : ts) {
    const size_t n = g.below(8) == 0 ? 0 : 1 + g.below(big ? 400 : 60);
    const uint32_t bias = 2 + g.below(5); const uint32_t zones = 1 + g.below(kNum); const uint32_t deep = 1 + g.below(60);
    size_t depth = 0;
    while (h.size() < n || depth) {
      const uint32_t r = g.below(10);
      if (h.size() >= n) { h.push_back({3}); --depth; continue; }
      if (r < bias && depth < deep) { h.push_back({1, g.below(zones)}); ++depth; }
      else if (r < 6 && depth) { h.push_back({3}); --depth; }
      else if (r == 7) h.push_back({4, g.below(zones), g.below(50), g.below(8) ? 1 + g.below(30) : 1000 + g.below(big ? 60000 : 2000)});
      else h.push_back({2, g.below(4) ? g.below(1000) : g.below(20000)});
    }
  }
  return ts;
}
}  // namespace
int main(int argc, char** argv) {
  // prof OUT seed tier part HISTORIES
  FILE* out = fopen(argv[1], "w");
  const uint64_t seed = strtoull(argv[2], nullptr, 10); const bool th = !strcmp(argv[3], "thorough");
  const int part = atoi(argv[4]);
  vt::Rng g(seed * 100 + static_cast<uint64_t>(part));
  size_t n = 0;
  // Histories of the model: "t e e e ; t ...", events as comma separated numbers.
  if (FILE* in = fopen(argv[5], "r")) {
    static char line[1 << 16]; int ln = 0;
    while (fgets(line, sizeof line, in)) {
      if (ln++ % 8 != part) continue;
      Threads ts; char* save = nullptr;
      for (char* t = strtok_r(line, " \n", &save); t; t = strtok_r(nullptr, " \n", &save)) {
        if (*t == 't') { ts.emplace_back(); continue; }
        Ev e; for (char* p = t; *p;) { e.push_back(strtoull(p, &p, 10)); if (*p == ',') ++p; }
        if (e[0] == 1) e[1] = e[1] == 2 ? 11 : 4 + e[1];      // zones 0 and 1 of the model have the same name
        ts.back().push_back(e);
      }
      Episode(out, ts, ln % 3 ? 0 : (1ull << 39) - 5, ln % 2 ? 0 : 3, false); ++n;
    }
    fclose(in);
  }
  if (part == 0) { Episode(out, Threads(1), 0, 0, false); ++n; }
  // Histories whose number of packets is close to what the storage holds.
  const int d0 = th ? -80 : -24, d1 = th ? 80 : 24;
  for (int d = d0 + part; d <= d1; d += 8) for (int outer = 0; outer < (th ? 3 : 2); ++outer) {
    const uint64_t calls = static_cast<uint64_t>(65536 * (1 + (part + outer) % 2) + d);
    std::vector<Ev> h;
    for (int k = 0; k < outer; ++k) h.insert(h.end(), {{1, static_cast<uint64_t>(11 + k)}, {2, 7}});
    h.insert(h.end(), {{4, 0, 1, calls}});
    for (int k = 0; k < outer; ++k) h.insert(h.end(), {{2, 5}, {3}});
    if (outer == 1) h.push_back({4, 6, 3, 2});
    Episode(out, Threads(1, h), 5, static_cast<uint64_t>(outer ? 3 : 0), false); ++n;
  }
  const int reps = th ? 900 : 60;
  for (int i = 0; i < reps; ++i) {
    const Threads ts = Random(g, i % 20 == 7 || (th && i % 5 == 0));
    // Starting points: zero, just before the timestamp field wraps, anything.
    const uint64_t start = i % 4 == 0 ? 0 : i % 4 == 1 ? (1ull << 39) - 1 - g.below(3000) : g.next() >> 3;
    Episode(out, ts, start, i % 3 ? g.below(100) : 0, i % 2 == 0); ++n;
  }
  fclose(out);
  printf("{\"episodes\":%zu}\n", n);
  return 0;
}
