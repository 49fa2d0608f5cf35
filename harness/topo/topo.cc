// P39: runs hwy::Topology, DataCaches and the affinity functions against a simulated operating system.
// open/read/fopen of /sys paths, sysconf and sched_*affinity of this process are replaced below; files
// are served from memory.  Each configuration runs in a child process.
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "hwy/contrib/thread_pool/topology.h"

namespace {
struct Node { int mode; std::string data; };   // modes: 0 plain, 1 EACCES, 2 EIO on read, 3 short reads, 4 EINTR once on open and on read
std::map<std::string, Node>& Files() { static std::map<std::string, Node> f; return f; }
std::map<int, int>& FdMode() { static std::map<int, int> m; return m; }
bool g_active = false;
long g_online = 1;
cpu_set_t g_allowed, g_cur;
bool g_affinity_fails = false;
bool Ours(const char* p) { return g_active && p && strncmp(p, "/sys/", 5) == 0; }
int OpenSim(const char* path) {
  auto it = Files().find(path);
  if (it == Files().end()) { errno = ENOENT; return -1; }
  Node& n = it->second;
  if (n.mode == 1) { errno = EACCES; return -1; }
  if (n.mode == 4) { n.mode = 5; errno = EINTR; return -1; }
  const int fd = static_cast<int>(syscall(SYS_memfd_create, "sim", 0));
  if (fd < 0) _exit(77);
  if (syscall(SYS_write, fd, n.data.data(), n.data.size()) != static_cast<long>(n.data.size())) _exit(78);
  lseek(fd, 0, SEEK_SET);
  if (n.mode) FdMode()[fd] = n.mode;
  return fd;
}
}  // namespace
extern "C" {
int open(const char* p, int fl, ...) {
  va_list a; va_start(a, fl); const int m = va_arg(a, int); va_end(a);
  if (Ours(p)) return OpenSim(p);
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m));
}
int open64(const char* p, int fl, ...) {
  va_list a; va_start(a, fl); const int m = va_arg(a, int); va_end(a);
  if (Ours(p)) return OpenSim(p);
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, m));
}
int openat(int d, const char* p, int fl, ...) {
  va_list a; va_start(a, fl); const int m = va_arg(a, int); va_end(a);
  if (Ours(p)) return OpenSim(p);
  return static_cast<int>(syscall(SYS_openat, d, p, fl, m));
}
FILE* fopen(const char* p, const char* mode) {
  int fl = O_RDONLY;
  if (Ours(p)) { const int fd = OpenSim(p); return fd < 0 ? nullptr : fdopen(fd, "r"); }
  if (mode[0] == 'w') fl = O_WRONLY | O_CREAT | O_TRUNC;
  const int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, 0644));
  return fd < 0 ? nullptr : fdopen(fd, mode);
}
FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
ssize_t read(int fd, void* buf, size_t n) {
  auto it = FdMode().find(fd);
  if (it != FdMode().end()) {
    if (it->second == 2) { errno = EIO; return -1; }
    if (it->second == 3 && n > 1) n = 1;
    if (it->second == 5) { it->second = 6; errno = EINTR; return -1; }
  }
  return syscall(SYS_read, fd, buf, n);
}
int close(int fd) { FdMode().erase(fd); return static_cast<int>(syscall(SYS_close, fd)); }
long __sysconf(int);
long sysconf(int name) noexcept {
  if (g_active && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) { if (g_online < 0) errno = EINVAL; return g_online; }
  return __sysconf(name);
}
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t* set) noexcept {
  if (!g_active) { const long r = syscall(SYS_sched_getaffinity, pid, size, set); return r < 0 ? -1 : 0; }
  if (g_affinity_fails) { errno = EPERM; return -1; }
  memcpy(set, &g_cur, size < sizeof g_cur ? size : sizeof g_cur);
  return 0;
}
int sched_setaffinity(pid_t pid, size_t size, const cpu_set_t* set) noexcept {
  if (!g_active) return static_cast<int>(syscall(SYS_sched_setaffinity, pid, size, set));
  cpu_set_t s; CPU_ZERO(&s); memcpy(&s, set, size < sizeof s ? size : sizeof s);
  CPU_AND(&s, &s, &g_allowed);
  if (CPU_COUNT(&s) == 0) { errno = EINVAL; return -1; }
  g_cur = s;
  return 0;
}
}

namespace {
std::string Set(const hwy::LogicalProcessorSet& s) {
  std::string r = "["; bool first = true;
  for (size_t i = 0; i < hwy::kMaxLogicalProcessors; ++i) if (s.Get(i)) { if (!first) r += ","; first = false; r += std::to_string(i); }
  return r + "]";
}
std::string Run() {
  std::string o = "{\"total\":" + std::to_string(hwy::TotalLogicalProcessors());
  { hwy::Topology t;
  o += ",\"lps\":[";
  for (size_t i = 0; i < t.lps.size(); ++i) {
    const auto l = t.lps[i];
    o += (i ? ",[" : "[") + std::to_string(l.package) + "," + std::to_string(l.cluster) + "," + std::to_string(l.core) + "," + std::to_string(l.smt) + "," + std::to_string(l.node) + "]";
  }
  o += "],\"pk\":[";
  for (size_t p = 0; p < t.packages.size(); ++p) {
    o += p ? ",{\"cl\":[" : "{\"cl\":[";
    const auto& k = t.packages[p];
    for (size_t i = 0; i < k.clusters.size(); ++i)
      o += std::string(i ? "," : "") + "{\"lps\":" + Set(k.clusters[i].lps) + ",\"private\":" + std::to_string(k.clusters[i].private_kib) + ",\"shared\":" + std::to_string(k.clusters[i].shared_kib) + "}";
    o += "],\"co\":[";
    for (size_t i = 0; i < k.cores.size(); ++i) o += (i ? "," : "") + Set(k.cores[i].lps);
    o += "]}";
  }
  o += "]"; }
  const hwy::Cache* c = hwy::DataCaches();
  o += ",\"caches\":[";
  if (c) for (int l = 1; l <= 3; ++l)
    o += std::string(l > 1 ? "," : "") + "{\"size\":" + std::to_string(c[l].size_kib) + ",\"sets\":" + std::to_string(c[l].sets) + ",\"line\":" + std::to_string(c[l].bytes_per_line) + ",\"ways\":" + std::to_string(c[l].associativity) + ",\"sharing\":" + std::to_string(c[l].cores_sharing) + "}";
  return o + "]}";
}
uint64_t Next(uint64_t& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
std::string Ints(const cpu_set_t& s) { std::string r = "["; bool f = true; for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &s)) { if (!f) r += ","; f = false; r += std::to_string(i); } return r + "]"; }
// A history of affinity calls; sets are dense, sparse or at the edges.
std::string Affinity(uint64_t s) {
  s = s * 0x9E3779B97F4A7C15ull + 99; Next(s);
  CPU_ZERO(&g_allowed);
  const int shape = static_cast<int>(Next(s) >> 33) % 4;
  const int n = shape == 0 ? 4 : shape == 1 ? 70 : 1024;
  for (int i = 0; i < n; ++i) if (shape < 2 || (Next(s) >> 40) % (shape == 2 ? 2 : 97) == 0 || i == 1023 || i == 63 || i == 64) CPU_SET(i, &g_allowed);
  g_cur = g_allowed;
  std::string o = "\"allowed\":" + Ints(g_allowed) + ",\"initial\":" + Ints(g_cur) + ",\"steps\":[";
  hwy::LogicalProcessorSet reused;   // callers may pass a set that is not empty
  for (int k = 0; k < 12; ++k) {
    if (k) o += ",";
    const int op = static_cast<int>(Next(s) >> 35) % 5;
    if (op == 0) {
      hwy::LogicalProcessorSet q;
      for (int i = 0; i < 1024; ++i) if ((Next(s) >> 40) % (k % 3 == 0 ? 3 : 150) == 0) q.Set(static_cast<size_t>(i));
      const bool ok = hwy::SetThreadAffinity(q);
      o += "{\"op\":\"set\",\"arg\":" + Set(q) + ",\"ok\":" + (ok ? "true" : "false") + ",\"res\":[]}";
    } else if (op == 1) {
      const size_t lp = (Next(s) >> 40) % (shape == 0 ? 8 : 1024);
      const bool ok = hwy::PinThreadToLogicalProcessor(lp);
      o += "{\"op\":\"pin\",\"arg\":[" + std::to_string(lp) + "],\"ok\":" + (ok ? "true" : "false") + ",\"res\":[]}";
    } else if (op == 2 && k % 4 == 3) {
      g_affinity_fails = true; hwy::LogicalProcessorSet q; const bool ok = hwy::GetThreadAffinity(q); g_affinity_fails = false;
      o += std::string("{\"op\":\"getfail\",\"arg\":[],\"ok\":") + (ok ? "true" : "false") + ",\"res\":[]}";
    } else {
      hwy::LogicalProcessorSet fresh; hwy::LogicalProcessorSet& q = op == 3 ? fresh : reused;
      const bool ok = hwy::GetThreadAffinity(q);
      o += std::string("{\"op\":\"get\",\"arg\":[],\"ok\":") + (ok ? "true" : "false") + ",\"res\":" + Set(q) + "}";
    }
  }
  return o + "]";
}
template <class F> void Child(const F& f, FILE* out, const std::string& pre, const char* member) {
  fflush(out);
  int pp[2];
  if (pipe(pp)) exit(3);
  const pid_t pid = fork();
  if (pid == 0) {
    ::close(pp[0]);
    alarm(30);
    if (!freopen("/dev/null", "w", stderr)) _exit(79);
    g_active = true;
    const std::string r = f();
    g_active = false;
    for (size_t at = 0; at < r.size();) { const ssize_t w = write(pp[1], r.data() + at, r.size() - at); if (w <= 0) _exit(80); at += static_cast<size_t>(w); }
    _exit(0);
  }
  ::close(pp[1]);
  std::string r; char buf[65536]; ssize_t n;
  while ((n = ::read(pp[0], buf, sizeof buf)) > 0) r.append(buf, static_cast<size_t>(n));
  ::close(pp[0]);
  int st = 0; waitpid(pid, &st, 0);
  std::string crash = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "";
  if (!crash.empty()) r = "";
  fprintf(out, "%s\"crash\":\"%s\"%s%s}\n", pre.c_str(), crash.c_str(), r.empty() ? "" : member, r.c_str());
}
}  // namespace

int main(int argc, char** argv) {
  // topo.cc CONFIGS OUT seed naffinity
  FILE* in = fopen(argv[1], "r"); FILE* out = fopen(argv[2], "w");
  if (!in || !out) return 2;
  static char line[1 << 16];
  std::string id;
  while (fgets(line, sizeof line, in)) {
    char a[256], hex[60000] = ""; int mode; long n;
    if (sscanf(line, "cfg %255s %ld", a, &n) == 2) { id = a; g_online = n; Files().clear(); continue; }
    if (sscanf(line, "f %255s %d %59999s", a, &mode, hex) >= 2) {
      std::string d; for (size_t i = 0; hex[i] && hex[i + 1]; i += 2) { unsigned x; sscanf(hex + i, "%2x", &x); d += static_cast<char>(x); }
      Files()[a] = {mode, d};
      continue;
    }
    if (strncmp(line, "end", 3) == 0) Child([] { return Run(); }, out, "{\"id\":" + id + ",\"kind\":\"topo\",", ",\"r\":");
  }
  const uint64_t seed = strtoull(argv[3], nullptr, 10);
  for (int i = 0; i < atoi(argv[4]); ++i) Child([=] { return Affinity(seed * 1000 + static_cast<uint64_t>(i)); }, out, "{\"id\":-1,\"kind\":\"aff\",", ",");
  fclose(out);
  return 0;
}
