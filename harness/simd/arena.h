// Memory with inaccessible pages on both sides, and detection of faulting accesses.
#ifndef VERIF_SIMD_ARENA_H_
#define VERIF_SIMD_ARENA_H_
#include <setjmp.h>
namespace vsimd {
struct Arena {
  static constexpr size_t kPage = 4096, kSize = 2 * kPage;
  uint8_t* lo;   // first accessible byte
  Arena() {
    uint8_t* p = static_cast<uint8_t*>(mmap(nullptr, kSize + 2 * kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (p == MAP_FAILED) abort();
    lo = p + kPage;
    if (mprotect(lo, kSize, PROT_READ | PROT_WRITE)) abort();
  }
  uint8_t* hi() { return lo + kSize; }
};
inline Arena& A(int i = 0) { static Arena a[4]; return a[i]; }
inline sigjmp_buf& Jmp() { static sigjmp_buf j; return j; }
inline volatile bool& InTry() { static volatile bool b = false; return b; }
inline void FaultHandler(int sig) {
  if (InTry()) { InTry() = false; siglongjmp(Jmp(), 1); }
  CrashHandler(sig);
}
inline void InstallFault() {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = FaultHandler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
}
// Runs f; returns true if it accessed inaccessible memory.
template <class F> __attribute__((noinline)) bool Faults(const F& f) {
  if (sigsetjmp(Jmp(), 1)) return true;
  InTry() = true;
  f();
  InTry() = false;
  return false;
}
// A window of memory around [p, p + len): `pre` accessible bytes before and `post` after it.
struct Window {
  uint8_t* p; size_t pre, len, post;
  uint8_t* begin() const { return p - pre; }
  size_t size() const { return pre + len + post; }
};
// kind 0: ends at the inaccessible page; 1: starts at it; 2: in the middle at `offset`.
inline Window Place(int arena, int kind, size_t len, size_t align, uint32_t offset) {
  Window w; w.len = len;
  uint8_t* lo = A(arena).lo; uint8_t* hi = A(arena).hi();
  const size_t kPad = 24;
  if (kind == 0) { w.p = hi - len; w.pre = kPad; w.post = 0; }
  else if (kind == 1) { w.p = lo; w.pre = 0; w.post = kPad; }
  else { w.p = lo + 2048 + offset * align; w.pre = kPad; w.post = kPad; }
  return w;
}
inline void Scramble(const Window& w, Rng& g) { for (size_t i = 0; i < w.size(); ++i) w.begin()[i] = static_cast<uint8_t>(g.next() >> 24); }
}  // namespace vsimd
#endif
