// Event log of one episode, written as one JSON object per line; identical episodes are written once.
#ifndef VERIF_TRACE_H_
#define VERIF_TRACE_H_
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <string.h>
#include <unistd.h>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>
namespace vt {
struct Log {
  FILE* out = nullptr;
  std::string ep;      // events of the current episode: [..],[..]
  std::string head;    // extra fields: "nw":3
  std::unordered_set<uint64_t> seen;
  uint64_t episodes = 0, distinct = 0, events = 0, distinct_events = 0, cur_events = 0;
  void Open(const char* p) { out = fopen(p, "w"); if (!out) { perror(p); exit(3); } }
  void Begin(const std::string& h) { ep.clear(); head = h; cur_events = 0; }
  void Ev(const char* name) { if (!ep.empty()) ep += ','; ep += "[\""; ep += name; ep += "\"]"; ++cur_events; }
  void Ev(const char* name, long a) { char b[64]; snprintf(b, sizeof b, "%s[\"%s\",%ld]", ep.empty() ? "" : ",", name, a); ep += b; ++cur_events; }
  void Ev(const char* name, long a, long c) { char b[96]; snprintf(b, sizeof b, "%s[\"%s\",%ld,%ld]", ep.empty() ? "" : ",", name, a, c); ep += b; ++cur_events; }
  void Ev(const char* name, long a, long c, long d) { char b[128]; snprintf(b, sizeof b, "%s[\"%s\",%ld,%ld,%ld]", ep.empty() ? "" : ",", name, a, c, d); ep += b; ++cur_events; }
  void End(const std::string& info) {
    episodes++; events += cur_events;
    uint64_t h = std::hash<std::string>()(head + "|" + ep);
    if (!seen.insert(h).second) return;
    distinct++; distinct_events += cur_events;
    fprintf(out, "{%s%s\"info\":\"%s\",\"ev\":[%s]}\n", head.c_str(), head.empty() ? "" : ",", info.c_str(), ep.c_str());
  }
};
inline Log& L() { static Log l; return l; }
inline std::string& CrashInfo() { static std::string s; return s; }
inline void CrashHandler(int sig) {
  Log& l = L();
  static int once = 0;
  if (once++) _exit(5);
  l.Ev("crash", sig);
  l.End(CrashInfo());
  fprintf(l.out, "");
  fflush(l.out);
  printf("{\"crashed\":%d}\n", sig); fflush(stdout);
  _exit(0);
}
inline void InstallCrashHandler() {
  static char alt[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = CrashHandler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
}
}  // namespace vt
#endif
