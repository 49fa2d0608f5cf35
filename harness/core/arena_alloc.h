// Simulated heap for allocation checks: a mapped region handing out blocks at chosen addresses with
// guard patterns, recording every call.  malloc/free are redirected here while `on` is set.
#ifndef VERIF_ARENA_ALLOC_H_
#define VERIF_ARENA_ALLOC_H_
#include <sys/mman.h>
#include <map>
#include "trace.h"
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __wrap_malloc(size_t); void __wrap_free(void*); }
namespace heap {
using vt::J;
constexpr size_t kSize = size_t{1} << 26, kGuard = 64;
struct Heap {
  uint8_t* mem = nullptr;
  std::map<size_t, size_t> live;       // base -> size
  vt::Rng rng{1};
  int fail_in = -1;                    // calls until failure
  int mode = 0;                        // 0: random placement, 1: lowest fit without gaps, 2: kAlias-aligned, 3: just after alignment
  bool on = false;                     // redirect malloc/free
  bool intact = true;                  // guards
  std::vector<std::string> calls;      // sub-events since last Take
  void Init() {
    if (mem) return;
    uint8_t* p = static_cast<uint8_t*>(mmap(nullptr, 2 * kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    mem = reinterpret_cast<uint8_t*>((reinterpret_cast<uintptr_t>(p) + (1 << 20)) & ~uintptr_t((1 << 20) - 1));
  }
  void Reset(uint64_t seed) { Init(); live.clear(); rng = vt::Rng(seed); fail_in = -1; mode = 0; calls.clear(); intact = true; }
  long Off(const void* p) const {
    if (!p) return -1;
    const uint8_t* q = static_cast<const uint8_t*>(p);
    if (q < mem || q >= mem + kSize) return -2;
    return q - mem;
  }
  bool Free(size_t a, size_t n) {   // region [a, a+n) unused?
    for (auto& b : live) if (a < b.first + b.second + (mode == 1 ? 0 : kGuard) && b.first < a + n + (mode == 1 ? 0 : kGuard)) return false;
    return true;
  }
  void* Alloc(size_t n, int ok) {
    size_t base = 0; bool got = false;
    if (fail_in >= 0 && fail_in-- == 0) {}
    else if (n <= kSize / 8) {
      for (int t = 0; t < 200 && !got; ++t) {
        if (mode == 1) { base = 4096 + 8; for (auto& b : live) if (!Free(base, n)) base = (b.first + b.second + 7) & ~size_t(7); }
        else base = 4096 + size_t(rng.below(kSize - kSize / 8 - 8192)) / 8 * 8;
        if (mode == 2) base &= ~size_t(1023);
        if (mode == 3) base = (base & ~size_t(1023)) + 8;
        got = Free(base, n);
      }
    }
    std::string s = "[\"a\"," + J(vt::Bytes(n)) + "," + J(got ? long(base) : -1L) + "," + J(ok) + "]";
    calls.push_back(s);
    if (!got) return nullptr;
    live[base] = n;
    memset(mem + base, 0xCD, n);
    if (mode != 1) { memset(mem + base - kGuard, 0xAB, kGuard); memset(mem + base + n, 0xAB, kGuard); }
    return mem + base;
  }
  void Release(void* p, int ok) {
    long o = Off(p);
    calls.push_back("[\"f\"," + J(o) + "," + J(ok) + "]");
    auto it = o < 0 ? live.end() : live.find(o);
    if (it == live.end()) return;
    if (mode != 1) for (size_t i = 0; i < kGuard; ++i) if (mem[o - 1 - i] != 0xAB || mem[o + it->second + i] != 0xAB) intact = false;
    memset(p, 0xDD, it->second);
    live.erase(it);
  }
  std::string Take() {
    std::string r = "[";
    for (size_t i = 0; i < calls.size(); ++i) { if (i) r += ","; r += calls[i]; }
    calls.clear();
    return r + "]";
  }
  bool Guards() { return intact; }
};
inline Heap& H() { static Heap h; return h; }
struct Raw { std::string s; };
inline std::string J(const Raw& r) { return r.s; }
static char kOpaque;
inline void* AllocCb(void* opaque, size_t n) { return H().Alloc(n, opaque == &kOpaque); }
inline void FreeCb(void* opaque, void* p) { H().Release(p, opaque == &kOpaque); }
// Redirects malloc/free while alive.
struct Redirect { Redirect() { H().on = true; } ~Redirect() { H().on = false; } };
}  // namespace heap
#ifdef VERIF_WRAP_MAIN
extern "C" void* __wrap_malloc(size_t n) { auto& h = heap::H(); if (!h.on) return __real_malloc(n); h.on = false; void* p = h.Alloc(n, 1); h.on = true; return p; }
extern "C" void __wrap_free(void* p) {
  auto& h = heap::H();
  if (!h.on && !(h.mem && p >= h.mem && p < h.mem + heap::kSize)) return __real_free(p);
  bool o = h.on; h.on = false; h.Release(p, 1); h.on = o;
}
#endif
#endif
