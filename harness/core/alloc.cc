// P09: histories of aligned allocation over a simulated heap.
#define VERIF_WRAP_MAIN
#include "core/arena_alloc.h"
#include "hwy/aligned_allocator.h"
using heap::H; using heap::Raw; using vt::Ev;
namespace vt { inline std::string J(const heap::Raw& r) { return r.s; } }
template <size_t N> struct T { uint8_t b[N]; };
struct Block { long payload; size_t n; void* p; int kind; size_t ts; uint8_t pat; };
static std::vector<Block> blocks;

template <size_t N> void* Allocate(int kind, size_t items) {
  using E = T<N>;
  switch (kind) {
    case 0: { heap::Redirect r; return hwy::AllocateAligned<E>(items).release(); }
    case 1: { return hwy::AllocateAligned<E>(items, heap::AllocCb, heap::FreeCb, &heap::kOpaque).release(); }
    default: { heap::Redirect r; hwy::AlignedAllocator<E> a; return a.allocate(items); }
  }
}
template <size_t N> void Free(int kind, void* p, bool direct) {
  using E = T<N>;
  switch (kind) {
    case 0: { heap::Redirect r; if (direct) hwy::FreeAlignedBytes(p, nullptr, nullptr); else { hwy::AlignedFreeUniquePtr<E[]> u(static_cast<E*>(p), hwy::AlignedFreer()); } break; }
    case 1: { if (direct) hwy::FreeAlignedBytes(p, heap::FreeCb, &heap::kOpaque); else { hwy::AlignedFreeUniquePtr<E[]> u(static_cast<E*>(p), hwy::AlignedFreer(heap::FreeCb, &heap::kOpaque)); u.reset(); } break; }
    default: { heap::Redirect r; hwy::AlignedAllocator<E> a; a.deallocate(static_cast<E*>(p), size_t{1}); }
  }
}
static const size_t kTS[] = {1, 2, 3, 4, 8, 12, 24, 40, 128};
static void* AllocateN(int kind, size_t ts, size_t items) {
  switch (ts) {
    case 1: return Allocate<1>(kind, items); case 2: return Allocate<2>(kind, items); case 3: return Allocate<3>(kind, items);
    case 4: return Allocate<4>(kind, items); case 8: return Allocate<8>(kind, items); case 12: return Allocate<12>(kind, items);
    case 24: return Allocate<24>(kind, items); case 40: return Allocate<40>(kind, items); default: return Allocate<128>(kind, items);
  }
}
static void FreeN(int kind, size_t ts, void* p, bool direct) {
  switch (ts) {
    case 1: return Free<1>(kind, p, direct); case 3: return Free<3>(kind, p, direct); case 8: return Free<8>(kind, p, direct);
    default: return Free<24>(kind, p, direct);
  }
}
static bool Intact(const Block& b) {
  const uint8_t* q = static_cast<const uint8_t*>(b.p);
  for (size_t i = 0; i < b.n; ++i) if (q[i] != uint8_t(b.pat + i * 7)) return false;
  return true;
}
static bool AllIntact() { for (auto& b : blocks) if (!Intact(b)) return false; return true; }
static void DoAlloc(vt::Rng& rng, int kind, size_t ts, size_t items, bool bytes) {
  void* p;
  if (bytes) {
    ts = 1;
    if (kind == 0) { heap::Redirect r; p = hwy::AllocateAlignedBytes(items); }
    else { kind = 1; p = hwy::AllocateAlignedBytes(items, heap::AllocCb, &heap::kOpaque); }
  } else p = AllocateN(kind, ts, items);
  long off = H().Off(p);
  Ev("alloc", ts, vt::Bytes(items), Raw{H().Take()}, off, AllIntact());
  if (p) {
    Block b{off, ts * items, p, kind, ts, uint8_t(rng.below(256))};
    uint8_t* q = static_cast<uint8_t*>(p);
    if (off < 0 || off + long(b.n) > long(heap::kSize)) return;   // the event above is rejected
    for (size_t i = 0; i < b.n; ++i) q[i] = uint8_t(b.pat + i * 7);
    blocks.push_back(b);
  }
}
static void DoFree(vt::Rng& rng, size_t i) {
  Block b = blocks[i];
  bool ok = Intact(b);
  blocks.erase(blocks.begin() + i);
  FreeN(b.kind, b.ts, b.p, rng.below(2));
  Ev("free", b.payload, Raw{H().Take()}, ok && AllIntact() && H().Guards());
}
int main(int argc, char** argv) {
  auto a = vt::Init(argc, argv);
  const int eps = a.thorough ? 2500 : 500;
  const uint64_t big[] = {~0ull, ~0ull / 2, ~0ull / 2 - 1, ~0ull / 2 + 1, 1ull << 61, 1ull << 60, 1ull << 63, 0xFFFFFFFFull, 1ull << 32, (1ull << 32) + 1, ~0ull / 3, ~0ull / 3 + 1, ~0ull / 12 + 1, ~0ull / 24 + 1, ~0ull / 40 + 1, ~0ull / 40, (1ull << 57), (1ull << 57) + 1, ~0ull - 1023, ~0ull - 1151, ~0ull - 2047};
  for (int e = 0; e < eps; ++e) {
    vt::Rng rng(a.seed * 7919 + e);
    H().Reset(rng.next());
    blocks.clear();
    H().mode = e % 4;
    vt::Begin();
    int steps = 8 + rng.below(24);
    for (int s = 0; s < steps; ++s) {
      int kind = rng.below(3);
      size_t ts = kTS[rng.below(9)];
      uint32_t r = rng.below(20);
      if (r < 8 || blocks.empty()) {
        if (rng.below(5) == 0) H().fail_in = rng.below(2);
        size_t items = rng.below(4) == 0 ? 1 + rng.below(3) : rng.below(3) ? 1 + rng.below(300) : 1 + rng.below(4000);
        if (rng.below(6) == 0) { size_t m[] = {64, 112, 128, 1008, 1024, 1040, 896, 16}; items = m[rng.below(8)]; }
        DoAlloc(rng, kind, ts, items, rng.below(4) == 0);
        H().fail_in = -1;
      } else if (r < 12) {
        uint64_t items = big[rng.below(sizeof(big) / 8)];
        if (rng.below(3) == 0) items = rng.next() >> rng.below(30);
        if (rng.below(3) == 0) items = (~0ull / ts) + 1 + rng.below(3);          // smallest overflowing counts
        if (rng.below(6) == 0) items = (~0ull / 2 / ts) - 1 + rng.below(3);
        if (!items) items = 1;
        H().fail_in = -1;
        DoAlloc(rng, kind, ts, items, ts == 1 && rng.below(2) == 0);
      } else if (r < 14) {
        int k = rng.below(3);
        FreeN(k, ts, nullptr, k < 2);
        Ev("free", -1L, Raw{H().Take()}, AllIntact());
      } else DoFree(rng, rng.below(blocks.size()));
    }
    while (!blocks.empty()) DoFree(rng, rng.below(blocks.size()));
    vt::Ev("end", H().live.size());
    vt::End();
  }
  return vt::Done();
}
