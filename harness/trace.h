// Episodes recorded from the real code, as JSON lines {"ev":[[name,args...],...],...}.
#ifndef VERIF_TRACE_H_
#define VERIF_TRACE_H_
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "watchdog.h"
namespace vt {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t v) : s(v * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 33) % n) : 0; }
};
inline std::string Esc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}
inline std::string J(const char* s) { return Esc(s); }
inline std::string J(const std::string& s) { return Esc(s); }
inline std::string J(bool v) { return v ? "1" : "0"; }
inline std::string J(int v) { return std::to_string(v); }
inline std::string J(unsigned v) { return std::to_string(v); }
inline std::string J(long v) { return std::to_string(v); }
inline std::string J(unsigned long v) { return std::to_string(v); }
inline std::string J(unsigned long long v) { return std::to_string(v); }
template <class T> std::string J(const std::vector<T>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += J(v[i]); }
  return r + "]";
}
// The bytes of a value, little endian (TLC's integers have 32 bits).
template <class T> std::vector<int> Bytes(const T& v) { uint8_t b[sizeof(T)]; memcpy(b, &v, sizeof(T)); return std::vector<int>(b, b + sizeof(T)); }

struct Out { FILE* f = nullptr; std::string cur, meta; bool open = false; long n = 0; };
inline Out& O() { static Out o; return o; }
inline void Begin(const std::string& meta = "") { O().cur.clear(); O().meta = meta; O().open = true; }
template <class... A> void Ev(const char* name, const A&... a) {
  vwd::Progress() = vwd::Progress() + 1;
  std::string s = "[" + Esc(name);
  using X = int[]; (void)X{0, (s += "," + J(a), 0)...};
  s += "]";
  if (!O().cur.empty()) O().cur += ",";
  O().cur += s;
}
inline void End() {
  fprintf(O().f, "{%s%s\"ev\":[%s]}\n", O().meta.c_str(), O().meta.empty() ? "" : ",", O().cur.c_str());
  O().open = false; O().n++;
}
inline void Crash(int sig) {
  if (O().open) { Ev("crash", sig); End(); fflush(O().f); }
  printf("{\"episodes\":%ld,\"crash\":%d}\n", O().n, sig); fflush(stdout);
  _exit(0);
}
// argv: out seed tier ...
struct Args { uint64_t seed; bool thorough; };
inline Args Init(int argc, char** argv) {
  O().f = fopen(argv[1], "w");
  static char alt[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = Crash; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGALRM}) sigaction(s, &sa, nullptr);
  alarm(500);
  vwd::Start(60, Crash);
  return Args{strtoull(argv[2], nullptr, 10), argc > 3 && !strcmp(argv[3], "thorough")};
}
inline int Done() { fclose(O().f); printf("{\"episodes\":%ld}\n", O().n); return 0; }
}  // namespace vt
#endif
