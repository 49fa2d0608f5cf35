// P12: bit sets.
#include "hwy/bit_set.h"
#include <algorithm>
#include <memory>
#include <new>
#include "trace.h"
using namespace vt;
template <class B, size_t kSize> struct Guarded {
  uint8_t pre[64]; alignas(64) unsigned char obj[sizeof(B)]; uint8_t post[4096];
};
static std::vector<int> Idx64(uint64_t b) { std::vector<int> v; for (int i = 0; i < 64; ++i) if ((b >> i) & 1) v.push_back(i); return v; }

template <class B, size_t kSize> void Episode(Rng& g, bool nested, const char* cls) {
  using G = Guarded<B, kSize>;
  Begin("\"class\":\"" + std::string(cls) + "\",\"cap\":" + std::to_string(kSize));
  auto mem = std::make_unique<G>();
  memset(static_cast<void*>(mem.get()), 0xA5, sizeof(G));
  B* s = new (mem->obj) B();
  const int style = static_cast<int>(g.below(4));
  auto pick = [&]() -> size_t {
    if (style == 0) return g.below(kSize);
    if (style == 1) { const size_t w = g.below((kSize + 63) / 64); const size_t i = w * 64 + (g.below(2) ? 63 : 0); return i < kSize ? i : kSize - 1; }
    if (style == 2) return g.below(3) ? kSize - 1 - g.below(kSize < 5 ? static_cast<uint32_t>(kSize) : 5) : g.below(kSize);
    const size_t w = g.below(3) % ((kSize + 63) / 64); const size_t i = w * 64 + g.below(64); return i < kSize ? i : g.below(kSize);
  };
  const uint32_t bulk_lim = kSize < 64 ? kSize : 64;
  const int ops = 12 + static_cast<int>(g.below(30));
  for (int k = 0; k < ops; ++k) {
    const size_t i = pick();
    switch (g.below(10)) {
      case 0: case 1: s->Set(i); Ev("set", i); break;
      case 2: s->Clear(i); Ev("clear", i); break;
      case 3: { uint64_t b = g.next() & g.next(); if (g.below(3) == 0) b = 0; if (g.below(3) == 0) b = 1ull << g.below(bulk_lim); if (bulk_lim < 64) b &= (1ull << bulk_lim) - 1;
                s->SetNonzeroBitsFrom64(b); Ev("bulk", Idx64(b)); break; }
      case 4: Ev("get", i, s->Get(i)); break;
      case 5: Ev("any", s->Any()); if (s->Any()) Ev("first", s->First()); break;
      case 6: Ev("count", s->Count()); break;
      case 7: Ev("get64", Idx64(s->Get64())); break;
      case 8: { std::vector<size_t> v; s->Foreach([&](size_t x) { v.push_back(x); }); Ev("each", v); break; }
      default: {
        // Modifying the set while iterating; the visit itself must be unaffected.  For the two-level
        // set only the word being visited may change.
        std::vector<size_t> v, sets, clears;
        const bool all = g.below(2) != 0;
        s->Foreach([&](size_t x) {
          v.push_back(x);
          if (all || g.below(3) == 0) { s->Clear(x); clears.push_back(x); }
          if (g.below(6) == 0) { size_t y = x / 64 * 64 + g.below(64); if (y < kSize && y != x) { s->Set(y); sets.push_back(y); clears.erase(std::remove(clears.begin(), clears.end(), y), clears.end()); } }
        });
        Ev("each", v);
        // The order of set and clear of the same index matters; report the final ones.
        for (size_t x : clears) { Ev("clear", x); }
        for (size_t y : sets) { if (s->Get(y)) Ev("set", y); else Ev("clear", y); }
        break;
      }
    }
  }
  std::vector<size_t> v; s->Foreach([&](size_t x) { v.push_back(x); }); Ev("each", v); Ev("count", s->Count());
  bool clean = true;
  for (uint8_t b : mem->pre) clean = clean && b == 0xA5;
  for (uint8_t b : mem->post) clean = clean && b == 0xA5;
  Ev("guard", clean);
  End();
  (void)nested;
}
template <size_t... kS> void Sizes(Rng& g, int reps) {
  using X = int[];
  for (int r = 0; r < reps; ++r) (void)X{0, (Episode<hwy::BitSet4096<kS>, kS>(g, true, "BitSet4096"), 0)...};
}
int main(int argc, char** argv) {
  const Args a = Init(argc, argv);
  Rng g(a.seed);
  const int reps = a.thorough ? 60 : 4;
  for (int r = 0; r < 20 * reps; ++r) Episode<hwy::BitSet64, 64>(g, false, "BitSet64");
  Sizes<1, 2, 3, 5, 31, 32, 33, 62, 63, 64, 65, 66, 80, 96, 100, 126, 127, 128, 129, 130, 160, 191, 192, 193, 200, 255, 256, 257, 300, 320, 500, 511, 512, 513, 600, 640, 1000, 1024, 1025, 2000, 2047, 2048, 3000, 4000, 4032, 4033, 4094, 4095, 4096>(g, reps);
  return Done();
}
