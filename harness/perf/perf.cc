// Episodes of PerfCounters calls against a simulated kernel (linked with --wrap).  argv: out seed tier part
#include <errno.h>
#include <linux/perf_event.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <math.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "hwy/abort.h"
#include "hwy/base.h"
#include "hwy/perf_counters.h"
#include "hwy/timer.h"
#include "trace.h"
using P = hwy::platform::PerfCounters;
using Ev2 = std::vector<int>;
struct Event { Ev2 id; int leader; int group; uint64_t count; bool on; uint64_t fmt; };
struct Group { uint64_t en = 0, run = 0; std::vector<int> fds; };
struct Kernel {
  bool perf = true, unpriv = true, epyc = false; int hw = 4, llc = 2, sh = 0, th = 0;
  std::string sysname = "Linux", release = "6.1.0";
  std::set<Ev2> can; std::map<int, Event> ev; std::vector<Group> groups; int next = 1000;
  int open_eintr = 0, read_eintr = 0, read_short = 0; std::set<int> read_fail; int fail_errno = EIO;
  vt::Rng* r = nullptr; std::vector<std::vector<int>> opened; bool foreign = false;
  bool disabled_by_default = false;
} K;
static int Eintr(int& n) { if (n > 0) { --n; errno = EINTR; return 1; } return 0; }
static int PerfOpen(const perf_event_attr* a, int pid, int cpu, int leader) {
  if (!K.perf) { errno = ENOSYS; return -1; }
  if (K.open_eintr && K.r->below(3) == 0) { static int in_row = 0; if (in_row < 3) { ++in_row; --K.open_eintr; errno = EINTR; return -1; } in_row = 0; }
  if (pid != 0 || cpu != -1 || (a->inherit && (a->read_format & PERF_FORMAT_GROUP))) { errno = EINVAL; return -1; }
  if (K.unpriv && !a->exclude_kernel) { errno = EACCES; return -1; }
  Ev2 id = {int(a->type), a->config > 0x7fffffff ? -1 : int(a->config)};
  if (!K.can.count(id)) { errno = ENOENT; return -1; }
  std::vector<int> members;
  if (leader != -1) {
    auto it = K.ev.find(leader);
    if (it == K.ev.end() || it->second.leader != leader) { errno = EBADF; return -1; }
    members = K.groups[it->second.group].fds;
  }
  int hw = id[0] != 1, llc = id[0] == 3;
  for (int f : members) { hw += K.ev[f].id[0] != 1; llc += K.ev[f].id[0] == 3; }
  if (hw > K.hw || llc > K.llc) { errno = K.r->below(2) ? ENOSPC : EINVAL; return -1; }
  int fd = K.next++;
  int g;
  if (leader == -1) { g = int(K.groups.size()); K.groups.push_back(Group()); } else g = K.ev[leader].group;
  K.groups[g].fds.push_back(fd);
  K.ev[fd] = Event{id, leader == -1 ? fd : leader, g, 0, !a->disabled, a->read_format};
  K.opened.push_back({id[0], id[1], leader == -1 ? 0 : g + 1});
  return fd;
}
extern "C" {
long __real_syscall(long, ...);
long __wrap_syscall(long n, ...) {
  va_list ap; va_start(ap, n); long x[6]; for (long& v : x) v = va_arg(ap, long); va_end(ap);
  if (n == __NR_perf_event_open) return PerfOpen(reinterpret_cast<perf_event_attr*>(x[0]), int(x[1]), int(x[2]), int(x[3]));
  return __real_syscall(n, x[0], x[1], x[2], x[3], x[4], x[5]);
}
ssize_t __real_read(int, void*, size_t);
static std::vector<uint8_t> g_pending; static int g_pending_fd = -1;
ssize_t __wrap_read(int fd, void* to, size_t n) {
  if (fd < 1000) return __real_read(fd, to, n);
  if (Eintr(K.read_eintr)) return -1;
  auto it = K.ev.find(fd);
  if (it == K.ev.end()) { errno = EBADF; return -1; }
  const Event& e = it->second;
  if (K.read_fail.count(e.group)) { if (K.fail_errno == 0) return 0; errno = K.fail_errno; return -1; }
  if (g_pending_fd != fd || g_pending.empty()) {
    std::vector<uint64_t> w; const Group& g = K.groups[e.group];
    const bool grp = e.fmt & PERF_FORMAT_GROUP;
    std::vector<int> m = grp ? (e.leader == fd ? g.fds : std::vector<int>{fd}) : std::vector<int>{fd};
    if (grp) w.push_back(m.size()); else w.push_back(K.ev[fd].count << K.sh);
    if (e.fmt & PERF_FORMAT_TOTAL_TIME_ENABLED) w.push_back(g.en << K.th);
    if (e.fmt & PERF_FORMAT_TOTAL_TIME_RUNNING) w.push_back(g.run << K.th);
    if (grp) for (int f : m) { w.push_back(K.ev[f].count << K.sh); if (e.fmt & PERF_FORMAT_ID) w.push_back(f); }
    else if (e.fmt & PERF_FORMAT_ID) w.push_back(fd);
    if (w.size() * 8 > n) { errno = ENOSPC; return -1; }
    g_pending.assign(reinterpret_cast<uint8_t*>(w.data()), reinterpret_cast<uint8_t*>(w.data() + w.size())); g_pending_fd = fd;
  }
  size_t k = g_pending.size() < n ? g_pending.size() : n;
  if (K.read_short > 0 && k > 1) { --K.read_short; k = 1 + K.r->below(uint32_t(k - 1)); if (K.r->below(2)) ++K.read_eintr; }
  memcpy(to, g_pending.data(), k); g_pending.erase(g_pending.begin(), g_pending.begin() + long(k));
  return ssize_t(k);
}
int __real_ioctl(int, unsigned long, ...);
int __wrap_ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long x = va_arg(ap, long); va_end(ap);
  if (fd < 1000) return __real_ioctl(fd, rq, x);
  auto it = K.ev.find(fd);
  if (it == K.ev.end()) { errno = EBADF; return -1; }
  std::vector<int> m = {fd};
  if (x & PERF_IOC_FLAG_GROUP) m = K.groups[it->second.group].fds;
  for (int f : m) {
    if (rq == PERF_EVENT_IOC_RESET) K.ev[f].count = 0;
    else if (rq == PERF_EVENT_IOC_ENABLE) K.ev[f].on = true;
    else if (rq == PERF_EVENT_IOC_DISABLE) K.ev[f].on = false;
    else { errno = ENOTTY; return -1; }
  }
  return 0;
}
int __wrap_prctl(int op, ...) {
  if (op != PR_TASK_PERF_EVENTS_ENABLE && op != PR_TASK_PERF_EVENTS_DISABLE) { errno = EINVAL; return -1; }
  if (!K.perf) { errno = EINVAL; return -1; }
  for (auto& e : K.ev) e.second.on = op == PR_TASK_PERF_EVENTS_ENABLE;
  return 0;
}
int __real_stat(const char*, struct stat*);
int __wrap_stat(const char* p, struct stat* s) {
  if (strncmp(p, "/proc/sys/kernel/perf_event", 27)) return __real_stat(p, s);
  if (!K.perf) { errno = ENOENT; return -1; }
  memset(s, 0, sizeof *s); return 0;
}
int __real_access(const char*, int);
int __wrap_access(const char* p, int m) {
  if (strncmp(p, "/proc/sys/kernel/perf_event", 27)) return __real_access(p, m);
  if (!K.perf) { errno = ENOENT; return -1; }
  return 0;
}
int __wrap_uname(struct utsname* u) {
  if (K.release.empty()) { errno = EFAULT; return -1; }
  memset(u, 0, sizeof *u); strcpy(u->sysname, K.sysname.c_str()); strcpy(u->release, K.release.c_str()); return 0;
}
}
namespace hwy { namespace platform {
bool GetCpuString(char* s) { strcpy(s, K.epyc ? "AMD EPYC 9B14" : "Intel(R) Xeon(R) AMD EPYC"); return true; }
} }
static void Read() {
  std::vector<int> F(K.read_fail.begin(), K.read_fail.end()); for (int& f : F) ++f;
  const double sc = 1000.0 / double(1ull << K.sh);
  P c; std::vector<int> valid; std::vector<long> vals; std::vector<std::vector<long>> each;
  auto q = [&](double v) -> long { if (!(v >= 0) || v * sc > 2e9) return -1; return lround(v * sc); };
  for (int i = 0; i < 11; ++i) { if (c.IsValid(P::Counter(i))) valid.push_back(i); double v = c.Get(P::Counter(i)); vals.push_back(v != 0 && q(v) == 0 ? -1 : q(v)); }
  c.Foreach([&](double v, P::Counter k) { each.push_back({long(k), q(v)}); });
  double m = c.MaxExtrapolate();
  vt::Ev("read", F, c.AnyValid(), valid, vals, each, !(m >= 0) || m > 1e6 ? -1l : lround(m * 1000));
  g_pending.clear();
}
static void Episode(vt::Rng& r) {
  const bool first_perf = r.below(8) != 0, none = r.below(8) == 0;
  K = Kernel(); K.r = &r;
  K.perf = first_perf; K.unpriv = r.below(4) != 0; K.epyc = r.below(3) == 0;
  K.hw = 1 + int(r.below(8)); if (r.below(6) == 0) K.hw = 11; K.llc = int(r.below(4));
  if (r.below(10) == 0) K.hw = 0;
  K.sh = int(r.below(3) * 14 + r.below(8)); K.th = int(r.below(3) * 16);
  const int major[] = {4, 5, 6, 6, 6, 7, 10, 6}, minor[] = {19, 15, 1, 8, 9, 0, 2, 12};
  const int v = int(r.below(8)); K.release = std::to_string(major[v]) + "." + std::to_string(minor[v]) + (r.below(2) ? ".3-generic" : "-rc1");
  if (r.below(8) == 0) K.sysname = "FreeBSD";
  const std::vector<Ev2> all = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 5}, {0, 6}, {0, 9}, {3, 2}, {3, 2 | 256}, {1, 2}, {1, 4}, {3, 2 | 65536}, {3, 2 | 256 | 65536}, {3, 0}, {3, 3}, {1, 1}, {1, 3}, {0, 7}};
  const int drop = int(r.below(4));
  auto mkcan = [&](bool empty) { K.can.clear(); for (auto& e : all) if (!empty && r.below(8) >= uint32_t(drop)) K.can.insert(e); };
  mkcan(none);
  std::vector<std::vector<int>> can(K.can.begin(), K.can.end());
  vt::Begin(); 
  auto kern = [&] { vt::Ev("kernel", K.perf, K.hw, K.llc, K.epyc, K.sysname, major[v], minor[v], std::vector<std::vector<int>>(K.can.begin(), K.can.end())); };
  kern();
  std::vector<P::Counter> cs; bool inited = false; int ticks = 0;
  std::vector<std::string> names; for (int i = 0; i < 11; ++i) names.push_back(P::Name(P::Counter(i)));
  vt::Ev("names", names);
  const int n = 6 + int(r.below(24));
  for (int i = 0; i < n; ++i) {
    const uint32_t w = r.below(20);
    if (w == 0 || (!inited && w < 8)) {
      K.opened.clear(); K.open_eintr = r.below(3) ? 0 : int(r.below(9)); K.disabled_by_default = false;
      const bool ok = P::Init(); K.open_eintr = 0;
      vt::Ev("init", ok, K.opened); inited = true;
    } else if (inited && w < 5) vt::Ev("start", P::StartAll());
    else if (w == 5) { P::StopAllAndReset(); vt::Ev("stop"); }
    else if (w == 6 && K.ev.empty() && r.below(2)) { K.perf = r.below(4) != 0; mkcan(r.below(4) == 0); kern(); }
    else if (w < 13 && ticks < 14) {
      ++ticks;
      const int dt = 1 + int(r.below(4)); const bool full = r.below(2);
      std::vector<int> sched; std::vector<std::vector<int>> inc;
      for (size_t g = 0; g < K.groups.size(); ++g) if (full || r.below(3)) sched.push_back(int(g) + 1);
      std::set<int> ss(sched.begin(), sched.end()); std::set<int> anyon;
      for (auto& e : K.ev) {
        const int k = int(r.below(15)); inc.push_back({e.second.id[0], e.second.id[1], k});
        if (e.second.on) { anyon.insert(e.second.group); if (ss.count(e.second.group + 1)) e.second.count += uint64_t(k); }
      }
      for (int g : anyon) { K.groups[size_t(g)].en += uint64_t(dt); if (ss.count(g + 1)) K.groups[size_t(g)].run += uint64_t(dt); }
      vt::Ev("tick", dt, sched, inc);
    } else {
      K.read_eintr = r.below(3) ? 0 : int(r.below(4)); K.read_short = r.below(3) ? 0 : int(r.below(3)); K.read_fail.clear();
      if (r.below(6) == 0 && !K.groups.empty()) { K.read_fail.insert(int(r.below(uint32_t(K.groups.size())))); K.fail_errno = r.below(3) ? EIO : 0; }
      if (K.groups.size() > 1) { K.read_eintr = K.read_eintr > 2 ? 2 : K.read_eintr; }
      Read(); K.read_eintr = K.read_short = 0; K.read_fail.clear();
    }
  }
  vt::End();
}
int main(int argc, char** argv) {
  vt::O().f = fopen(argv[1], "w");
  const uint64_t seed = strtoull(argv[2], 0, 10); const bool th = !strcmp(argv[3], "thorough"); const int part = atoi(argv[4]);
  const int n = th ? 4000 : 500; long total = 0;
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  for (int i = 0; i < n; ++i) {
    fflush(vt::O().f);
    pid_t p = fork();           // the counters are process-wide state
    if (p == 0) {
      hwy::SetAbortFunc([](const char* f, int l, const char* m) { vt::Ev("abort", std::string(m)); vt::End(); fflush(vt::O().f); _exit(0); });
      alarm(20);
      vt::Rng r(seed * 7919 + uint64_t(part) * 100003 + uint64_t(i)); Episode(r); fflush(vt::O().f); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (st) fprintf(vt::O().f, "{\"ev\":[[\"abort\",\"status %d\"]]}\n", st);
    ++total;
  }
  fclose(vt::O().f);
  printf("{\"episodes\":%ld}\n", total);
}
