// Deterministic cooperative scheduler that runs unmodified multi-threaded code on fibers and
// simulates the C++ memory model for its atomics (stale values permitted by happens-before, vector
// clocks for data races).  Include all std headers first, then sched.h, then sched_macros.h, then the
// code under test.
#ifndef VERIF_SCHED_H_
#define VERIF_SCHED_H_
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vs {

constexpr int kMaxFibers = 72;

struct Rng {
  uint64_t s = 1;
  void seed(uint64_t v) { s = v * 0x9E3779B97F4A7C15ull + 0x1234567; next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint32_t below(uint32_t n) { return n ? static_cast<uint32_t>((next() >> 33) % n) : 0; }
  bool chance(uint32_t pct) { return below(100) < pct; }
};

struct VC {
  uint32_t c[kMaxFibers];
  VC() { memset(c, 0, sizeof(c)); }
  void join(const VC& o) { for (int i = 0; i < kMaxFibers; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum State { kFree, kRunnable, kFutex, kJoin, kMonitor, kDone };

struct Fiber {
  ucontext_t ctx;
  char* stack = nullptr;
  std::function<void()> fn;
  State state = kFree;
  const void* waddr = nullptr;
  bool wpriv = true;     // the kernel distinguishes private and shared futexes
  int wtid = -1;
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence = false;
  int prio = 0;
  uint32_t loads_in_row = 0;
  bool yielding = false;
  uint64_t yield_seq = 0;
  // monitor emulation
  const void* armed = nullptr;
  bool armed_hit = false;
};

struct StoreRec { uint64_t val; int tid; uint32_t clk; std::shared_ptr<VC> rel; };
struct Loc {
  std::deque<StoreRec> h;
  uint64_t base = 0;                 // absolute index of h.front()
  std::map<int, uint64_t> last;      // per fiber: absolute index of last value read
};

enum Policy { kUniform, kSticky, kPct, kStarve, kHints };

struct Sched {
  std::vector<Fiber> f;
  int cur = 0, nf = 0;
  Rng rng;
  Policy policy = kUniform;
  uint32_t stale_pct = 0, spurious_pct = 0;
  std::vector<int> starve;
  std::vector<int> hints; size_t hint_pos = 0;
  std::vector<uint64_t> change_points;
  uint64_t steps = 0, store_seq = 0, max_steps = 2000000;
  uint32_t idle = 0;
  int low_prio = -1;
  std::unordered_map<const void*, Loc> locs;
  ucontext_t root;
  bool stuck = false;
  bool active = false;
  std::function<void(const char*)> on_stuck;
  uint64_t total_points = 0;
};
inline Sched& S() { static Sched s; return s; }
inline int Cur() { return S().cur; }

inline void Switch(bool leaving);
inline void Trampoline() {
  Sched& s = S();
  Fiber& f = s.f[s.cur];
  f.fn();
  f.state = kDone;
  // wake joiners
  for (int i = 0; i < s.nf; ++i)
    if (s.f[i].state == kJoin && s.f[i].wtid == s.cur) s.f[i].state = kRunnable;
  s.store_seq++;
  Switch(true);
  abort();
}

inline void GiveUp(const char* why) {
  Sched& s = S();
  if (getenv("VS_DEBUG")) {
    fprintf(stderr, "stuck: %s steps=%lu idle=%u\n", why, s.steps, s.idle);
    for (int i = 0; i < s.nf; ++i) fprintf(stderr, "  fiber %d state %d loads %u yielding %d waddr %p\n", i, s.f[i].state, s.f[i].loads_in_row, s.f[i].yielding, s.f[i].waddr);
  }
  s.stuck = true;
  if (s.on_stuck) s.on_stuck(why);
  setcontext(&s.root);
}

inline int Pick() {
  Sched& s = S();
  int run[kMaxFibers], n = 0, any = 0;
  for (int i = 0; i < s.nf; ++i) {
    if (s.f[i].state != kRunnable) continue;
    any++;
    if (s.f[i].yielding && s.f[i].yield_seq == s.store_seq) continue;
    run[n++] = i;
  }
  if (!any) return -1;
  if (!n) {
    if (++s.idle > static_cast<uint32_t>(any) * 400 + 400) return -1;
    for (int i = 0; i < s.nf; ++i) if (s.f[i].state == kRunnable) run[n++] = i;
    return run[s.rng.below(n)];
  }
  s.idle = 0;
  switch (s.policy) {
    case kHints:
      while (s.hint_pos < s.hints.size()) {
        int h = s.hints[s.hint_pos++];
        for (int i = 0; i < n; ++i) if (run[i] == h) return h;
      }
      return run[s.rng.below(n)];
    case kSticky: {
      if (!s.rng.chance(20)) for (int i = 0; i < n; ++i) if (run[i] == s.cur) return s.cur;
      return run[s.rng.below(n)];
    }
    case kPct: {
      int best = run[0];
      for (int i = 1; i < n; ++i) if (s.f[run[i]].prio > s.f[best].prio) best = run[i];
      return best;
    }
    case kStarve: {
      int m = 0, ok[kMaxFibers];
      for (int i = 0; i < n; ++i) {
        bool st = false;
        for (int x : s.starve) st |= x == run[i];
        if (!st) ok[m++] = run[i];
      }
      if (m) {
        if (s.rng.chance(80)) for (int i = 0; i < m; ++i) if (ok[i] == s.cur) return s.cur;
        return ok[s.rng.below(m)];
      }
      return run[s.rng.below(n)];
    }
    default:
      return run[s.rng.below(n)];
  }
}

inline void Switch(bool /*leaving*/) {
  Sched& s = S();
  s.steps++; s.total_points++;
  if (s.steps > s.max_steps) GiveUp("step bound");
  if (s.policy == kPct)
    for (uint64_t cp : s.change_points) if (cp == s.steps) s.f[s.cur].prio = s.low_prio--;
  int nxt = Pick();
  if (nxt < 0) GiveUp("no progress possible");
  if (nxt == s.cur) return;
  int prev = s.cur;
  s.cur = nxt;
  swapcontext(&s.f[prev].ctx, &s.f[nxt].ctx);
}

inline void Point() { if (S().active) Switch(false); }

inline int Spawn(std::function<void()> fn) {
  Sched& s = S();
  if (s.nf >= kMaxFibers) { fprintf(stderr, "too many fibers\n"); abort(); }
  int id = s.nf++;
  Fiber& f = s.f[id];
  f.fn = std::move(fn);
  f.state = kRunnable;
  f.waddr = nullptr; f.yielding = false; f.loads_in_row = 0; f.armed = nullptr; f.has_rel_fence = false;
  f.vc = VC(); f.acq_pending = VC(); f.rel_fence = VC();
  if (id != 0) f.vc = s.f[s.cur].vc;
  f.vc.c[id] = 1;
  if (id != 0) s.f[s.cur].vc.c[s.cur]++;
  f.prio = 1000 + static_cast<int>(s.rng.below(1000));
  constexpr size_t kStack = 256 << 10;
  if (!f.stack) f.stack = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  getcontext(&f.ctx);
  f.ctx.uc_stack.ss_sp = f.stack;
  f.ctx.uc_stack.ss_size = kStack;
  f.ctx.uc_link = nullptr;
  makecontext(&f.ctx, Trampoline, 0);
  return id;
}

inline void Join(int tid) {
  Sched& s = S();
  Switch(false);
  while (s.f[tid].state != kDone) {
    s.f[s.cur].state = kJoin; s.f[s.cur].wtid = tid;
    Switch(false);
  }
  s.f[s.cur].vc.join(s.f[tid].vc);
}

// Runs `main_fn` as fiber 0 until it returns (true) or the episode is stuck (false).
inline bool RunEpisode(std::function<void()> main_fn) {
  Sched& s = S();
  if (s.f.empty()) s.f.resize(kMaxFibers);
  for (auto& f : s.f) f.state = kFree;
  s.nf = 0; s.cur = 0; s.steps = 0; s.idle = 0; s.stuck = false; s.hint_pos = 0; s.low_prio = -1;
  s.locs.clear();
  volatile bool finished = false;
  volatile bool started = false;
  Spawn([&] { main_fn(); finished = true; setcontext(&S().root); });
  getcontext(&s.root);
  if (!started) {
    started = true;
    s.active = true;
    setcontext(&s.f[0].ctx);
  }
  s.active = false;
  return finished;
}

// ------------------------------------------------------------ memory model
inline bool IsAcq(std::memory_order o) { return o == std::memory_order_acquire || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst || o == std::memory_order_consume; }
inline bool IsRel(std::memory_order o) { return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst; }

template <typename T> uint64_t ToU(const T& v) { uint64_t u = 0; static_assert(sizeof(T) <= 8, ""); memcpy(&u, &v, sizeof(T)); return u; }
template <typename T> T FromU(uint64_t u) { T v; memcpy(&v, &u, sizeof(T)); return v; }

inline Loc& GetLoc(const void* p, uint64_t init) {
  Sched& s = S();
  Loc& l = s.locs[p];
  if (l.h.empty()) l.h.push_back(StoreRec{init, -1, 0, nullptr});
  return l;
}
inline void ResetLoc(const void* p) { if (S().active) S().locs.erase(p); }
inline void NoteStore(const void* p) {
  Sched& s = S();
  s.store_seq++;
  s.f[s.cur].loads_in_row = 0;
  s.f[s.cur].yielding = false;
  for (int i = 0; i < s.nf; ++i) {
    Fiber& f = s.f[i];
    // monitors watch the cache line
    if (f.armed && (reinterpret_cast<uintptr_t>(f.armed) / 64 == reinterpret_cast<uintptr_t>(p) / 64)) {
      f.armed_hit = true;
      if (f.state == kMonitor) f.state = kRunnable;
    }
  }
}
inline void NoteLoad() {
  Sched& s = S();
  Fiber& f = s.f[s.cur];
  if (++f.loads_in_row > 12) { f.yielding = true; f.yield_seq = s.store_seq; if (s.policy == kPct) f.prio = s.low_prio--; }
}

inline uint64_t AtomicLoad(const void* p, uint64_t mem, std::memory_order o) {
  Sched& s = S();
  if (!s.active) return mem;
  Point();
  Fiber& f = s.f[s.cur];
  // `mem` was sampled before the scheduling point: re-read through the location record.
  Loc& l = GetLoc(p, mem);
  size_t idx = l.h.size() - 1;
  if (o != std::memory_order_seq_cst && s.stale_pct && !f.yielding && f.armed != p && idx > 0 && s.rng.chance(s.stale_pct)) {
    uint64_t lim = 0;
    auto it = l.last.find(s.cur);
    if (it != l.last.end() && it->second > l.base) lim = it->second - l.base;
    size_t lo = idx;
    while (lo > lim) {
      const StoreRec& r = l.h[lo];
      if (r.tid < 0 || f.vc.c[r.tid] >= r.clk) break;   // happens-before this load: older ones hidden
      --lo;
    }
    idx = lo + s.rng.below(static_cast<uint32_t>(idx - lo + 1));
  }
  const StoreRec r = l.h[idx];
  auto seen = l.last.find(s.cur);
  if (seen == l.last.end() || seen->second != l.base + idx) { f.loads_in_row = 0; f.yielding = false; }  // a new value: progress
  l.last[s.cur] = l.base + idx;
  if (r.rel) { if (IsAcq(o)) f.vc.join(*r.rel); else f.acq_pending.join(*r.rel); }
  NoteLoad();
  return r.val;
}
inline void PushStore(Loc& l, StoreRec r) {
  Sched& s = S();
  l.h.push_back(std::move(r));
  if (l.h.size() > 6) { l.h.pop_front(); l.base++; }
  l.last[s.cur] = l.base + l.h.size() - 1;
}
inline std::shared_ptr<VC> RelClock(std::memory_order o) {
  Sched& s = S();
  Fiber& f = s.f[s.cur];
  if (IsRel(o)) return std::make_shared<VC>(f.vc);
  if (f.has_rel_fence) return std::make_shared<VC>(f.rel_fence);
  return nullptr;
}
inline void AtomicStore(const void* p, uint64_t mem, uint64_t v, std::memory_order o) {
  Sched& s = S();
  if (!s.active) return;
  Fiber& f = s.f[s.cur];
  Loc& l = GetLoc(p, mem);
  f.vc.c[s.cur]++;
  PushStore(l, StoreRec{v, s.cur, f.vc.c[s.cur], RelClock(o)});
  NoteStore(p);
}
// Read-modify-write: returns the newest value and records acquire; caller then stores.
inline uint64_t RmwLoad(const void* p, uint64_t mem, std::memory_order o, std::shared_ptr<VC>* chain) {
  Sched& s = S();
  Fiber& f = s.f[s.cur];
  Loc& l = GetLoc(p, mem);
  const StoreRec& r = l.h.back();
  *chain = r.rel;
  l.last[s.cur] = l.base + l.h.size() - 1;
  if (r.rel) { if (IsAcq(o)) f.vc.join(*r.rel); else f.acq_pending.join(*r.rel); }
  return r.val;
}
inline void RmwStore(const void* p, uint64_t v, std::memory_order o, const std::shared_ptr<VC>& chain) {
  Sched& s = S();
  Fiber& f = s.f[s.cur];
  f.vc.c[s.cur]++;
  std::shared_ptr<VC> rel = RelClock(o);
  if (chain) { if (!rel) rel = chain; else { rel = std::make_shared<VC>(*rel); rel->join(*chain); } }
  Loc& l = GetLoc(p, 0);
  PushStore(l, StoreRec{v, s.cur, f.vc.c[s.cur], rel});
  NoteStore(p);
}
inline void Fence(std::memory_order o) {
  Sched& s = S();
  if (!s.active) return;
  Fiber& f = s.f[s.cur];
  if (IsAcq(o)) f.vc.join(f.acq_pending);
  if (IsRel(o)) { f.rel_fence = f.vc; f.has_rel_fence = true; f.vc.c[s.cur]++; }
}

// Plain data with race detection.
struct Plain {
  int wt = -1; uint32_t wc = 0;
  uint32_t rc[kMaxFibers] = {};
  // Returns false on a data race.
  bool Write() {
    Fiber& f = S().f[S().cur];
    bool ok = wt < 0 || f.vc.c[wt] >= wc;
    for (int i = 0; i < kMaxFibers; ++i) ok &= rc[i] <= f.vc.c[i];
    wt = S().cur; wc = ++f.vc.c[wt];
    memset(rc, 0, sizeof(rc));
    return ok;
  }
  bool Read() {
    Fiber& f = S().f[S().cur];
    bool ok = wt < 0 || f.vc.c[wt] >= wc;
    rc[S().cur] = ++f.vc.c[S().cur];
    return ok;
  }
};

// ------------------------------------------------------------ futex / monitor
inline long Futex(const void* addr, int op, uint32_t val, bool bad_addr_read_ok = true) {
  Sched& s = S();
  const int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  Point();
  Fiber& f = s.f[s.cur];
  uint32_t mem; memcpy(&mem, addr, 4);
  Loc& l = GetLoc(addr, mem);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    f.loads_in_row = 0;
    if (static_cast<uint32_t>(l.h.back().val) != val) { errno = EAGAIN; return -1; }
    if (s.spurious_pct && s.rng.chance(s.spurious_pct)) {
      if (s.rng.chance(50)) { errno = EINTR; return -1; }
      return 0;
    }
    f.state = kFutex; f.waddr = addr; f.wpriv = (op & FUTEX_PRIVATE_FLAG) != 0;
    Switch(false);
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    std::vector<int> w;
    for (int i = 0; i < s.nf; ++i) if (s.f[i].state == kFutex && s.f[i].waddr == addr && s.f[i].wpriv == ((op & FUTEX_PRIVATE_FLAG) != 0)) w.push_back(i);
    while (!w.empty() && n < static_cast<long>(static_cast<int>(val))) {
      size_t k = s.rng.below(static_cast<uint32_t>(w.size()));
      s.f[w[k]].state = kRunnable; s.f[w[k]].waddr = nullptr;
      w.erase(w.begin() + static_cast<long>(k)); ++n;
    }
    s.store_seq++;
    f.loads_in_row = 0;
    return n;
  }
  errno = ENOSYS;
  return -1;
}
inline void MonitorArm(const void* addr) {
  Sched& s = S();
  Point();
  s.f[s.cur].armed = addr; s.f[s.cur].armed_hit = false;
}
inline void MonitorWait() {
  Sched& s = S();
  Point();
  Fiber& f = s.f[s.cur];
  f.loads_in_row = 0;
  if (!f.armed || f.armed_hit) { f.armed = nullptr; return; }
  if (s.spurious_pct && s.rng.chance(s.spurious_pct)) { f.armed = nullptr; return; }
  f.state = kMonitor;
  Switch(false);
  s.f[s.cur].armed = nullptr;
}

}  // namespace vs

// ------------------------------------------------------------ drop-in replacements
namespace std {
template <typename T>
struct verif_atomic {
  T v;
  verif_atomic() noexcept { vs::ResetLoc(this); }
  verif_atomic(T x) noexcept : v(x) { vs::ResetLoc(this); }
  verif_atomic(const verif_atomic&) = delete;
  verif_atomic& operator=(const verif_atomic&) = delete;
  bool is_lock_free() const noexcept { return true; }
  static constexpr bool is_always_lock_free = true;
  T load(memory_order o = memory_order_seq_cst) const noexcept { return vs::FromU<T>(vs::AtomicLoad(this, vs::ToU(v), o)); }
  operator T() const noexcept { return load(); }
  void store(T x, memory_order o = memory_order_seq_cst) noexcept {
    if (vs::S().active) { vs::Point(); vs::AtomicStore(this, vs::ToU(v), vs::ToU(x), o); }
    v = x;
  }
  T operator=(T x) noexcept { store(x); return x; }
  template <class F> T rmw(memory_order o, F f) {
    if (!vs::S().active) { T old = v; v = f(old); return old; }
    vs::Point();
    std::shared_ptr<vs::VC> chain;
    T old = vs::FromU<T>(vs::RmwLoad(this, vs::ToU(v), o, &chain));
    T nw = f(old);
    vs::RmwStore(this, vs::ToU(nw), o, chain);
    v = nw;
    return old;
  }
  T exchange(T x, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [x](T) { return x; }); }
  template <class A> T fetch_add(A a, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [a](T t) { return static_cast<T>(t + a); }); }
  template <class A> T fetch_sub(A a, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [a](T t) { return static_cast<T>(t - a); }); }
  template <class A> T fetch_or(A a, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [a](T t) { return static_cast<T>(t | a); }); }
  template <class A> T fetch_and(A a, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [a](T t) { return static_cast<T>(t & a); }); }
  template <class A> T fetch_xor(A a, memory_order o = memory_order_seq_cst) noexcept { return rmw(o, [a](T t) { return static_cast<T>(t ^ a); }); }
  T operator++() noexcept { return fetch_add(1) + 1; }
  T operator++(int) noexcept { return fetch_add(1); }
  T operator--() noexcept { return fetch_sub(1) - 1; }
  T operator--(int) noexcept { return fetch_sub(1); }
  template <class A> T operator+=(A a) noexcept { return fetch_add(a) + a; }
  template <class A> T operator-=(A a) noexcept { return fetch_sub(a) - a; }
  template <class A> T operator|=(A a) noexcept { return fetch_or(a) | a; }
  template <class A> T operator&=(A a) noexcept { return fetch_and(a) & a; }
  bool compare_exchange_strong(T& e, T d, memory_order o = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, d, o, o == memory_order_release ? memory_order_relaxed : o == memory_order_acq_rel ? memory_order_acquire : o); }
  bool compare_exchange_strong(T& e, T d, memory_order o, memory_order fo) noexcept {
    if (!vs::S().active) { if (v == e) { v = d; return true; } e = v; return false; }
    vs::Point();
    std::shared_ptr<vs::VC> chain;
    T old = vs::FromU<T>(vs::RmwLoad(this, vs::ToU(v), vs::IsAcq(o) ? o : fo, &chain));
    if (old == e) { vs::RmwStore(this, vs::ToU(d), o, chain); v = d; return true; }
    e = old; vs::NoteLoad(); return false;
  }
  bool compare_exchange_weak(T& e, T d, memory_order o = memory_order_seq_cst) noexcept {
    if (vs::S().active && vs::S().spurious_pct && vs::S().rng.chance(vs::S().spurious_pct)) { e = load(memory_order_relaxed); return false; }
    return compare_exchange_strong(e, d, o);
  }
  bool compare_exchange_weak(T& e, T d, memory_order o, memory_order fo) noexcept { return compare_exchange_strong(e, d, o, fo); }
};
inline void verif_atomic_thread_fence(memory_order o) noexcept { vs::Fence(o); }

struct verif_atomic_flag {
  verif_atomic<bool> b{false};
  verif_atomic_flag() = default;
  verif_atomic_flag(bool) : b(false) {}
  bool test_and_set(memory_order o = memory_order_seq_cst) { return b.exchange(true, o); }
  void clear(memory_order o = memory_order_seq_cst) { b.store(false, o); }
};

class verif_thread {
  int id_ = -1;
 public:
  using id = int;
  using native_handle_type = pthread_t;
  verif_thread() {}
  template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, verif_thread>::value>::type>
  explicit verif_thread(F&& f, A&&... a) {
    auto p = std::make_shared<std::tuple<typename std::decay<F>::type, typename std::decay<A>::type...>>(std::forward<F>(f), std::forward<A>(a)...);
    id_ = vs::Spawn([p] { std::apply([](auto& fn, auto&... as) { fn(as...); }, *p); });
    vs::Point();
  }
  verif_thread(verif_thread&& o) noexcept : id_(o.id_) { o.id_ = -1; }
  verif_thread& operator=(verif_thread&& o) noexcept { if (id_ >= 0) abort(); id_ = o.id_; o.id_ = -1; return *this; }
  verif_thread(const verif_thread&) = delete;
  ~verif_thread() { if (id_ >= 0) abort(); }
  bool joinable() const { return id_ >= 0; }
  int get_id() const { return id_; }
  void join() { vs::Join(id_); id_ = -1; }
  void detach() { id_ = -1; }
  static unsigned hardware_concurrency() { return 8; }
};
}  // namespace std

inline long verif_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr);
  long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && vs::S().active) return vs::Futex(reinterpret_cast<const void*>(a[0]), static_cast<int>(a[1]), static_cast<uint32_t>(a[2]));
  return syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
inline int verif_nanosleep(const timespec*, timespec*) { vs::Point(); return 0; }
inline int verif_setname(pthread_t, const char*) { return 0; }
#endif
