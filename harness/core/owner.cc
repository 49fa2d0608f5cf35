// P10: owners of aligned objects and arrays; every constructor, destructor and allocator call is recorded.
#define VERIF_WRAP_MAIN
#include "core/arena_alloc.h"
#include "hwy/aligned_allocator.h"
#include <string>
using heap::H; using heap::Raw; using vt::Ev;
namespace vt { inline std::string J(const heap::Raw& r) { return r.s; } }
static void Log(const char* k, const void* p, long arg) {
  bool o = H().on; H().on = false;
  H().calls.push_back(std::string("[\"") + k + "\"," + vt::J(H().Off(p)) + "," + vt::J(arg) + "]");
  H().on = o;
}
// A movable argument whose moved-from state is visible.
struct Arg {
  long v;
  explicit Arg(long x) : v(x) {}
  Arg(const Arg& o) : v(o.v) {}
  Arg(Arg&& o) : v(o.v) { o.v = -1; }
};
struct Base0 {};
template <size_t N> struct Elem {
  uint8_t b[N];
  Elem() { b[0] = 0; Log("c", this, 0); }
  Elem(int x, long y) { b[0] = uint8_t(x); Log("c", this, x * 1000 + y); }
  explicit Elem(Arg a) { b[0] = uint8_t(a.v); Log("c", this, a.v); }
  ~Elem() { Log("d", this, 0); }
  Elem(const Elem&) = delete;
};
template <class E> struct Slots {
  hwy::AlignedUniquePtr<E> one[3];
  hwy::AlignedUniquePtr<E[]> arr[3];
};
template <size_t N> static void Episode(vt::Rng& rng) {
  using E = Elem<N>;
  {
    Slots<E> s;
    int steps = 6 + rng.below(14);
    for (int t = 0; t < steps; ++t) {
      int i = rng.below(3), j = rng.below(3);
      bool custom = rng.below(2), arr = rng.below(2);
      if (rng.below(5) == 0) H().fail_in = 0;
      uint32_t op = rng.below(12);
      size_t items = arr ? 1 + (rng.below(3) ? rng.below(7) : rng.below(40)) : 1;
      int sl = arr ? 3 + i : i, sj = arr ? 3 + j : j;
      heap::Redirect red;
      if (op < 6) {
        int how = rng.below(4); int x = rng.below(100); long y = rng.below(1000);
        long arg = how == 0 ? 0 : how == 1 ? x * 1000 + y : y;
        bool over = arr && rng.below(10) == 0;
        Arg lv(y);
        if (arr) {
          size_t n = over ? ~size_t{0} / N + 1 + rng.below(2) : items;
          if (over && N == 1) n = ~size_t{0} - rng.below(100);
          hwy::AlignedUniquePtr<E[]> u;
          if (how == 0) u = custom ? hwy::MakeUniqueAlignedArrayWithAlloc<E>(n, heap::AllocCb, heap::FreeCb, &heap::kOpaque) : hwy::MakeUniqueAlignedArray<E>(n);
          else if (how == 1) u = custom ? hwy::MakeUniqueAlignedArrayWithAlloc<E>(n, heap::AllocCb, heap::FreeCb, &heap::kOpaque, x, y) : hwy::MakeUniqueAlignedArray<E>(n, x, y);
          else if (how == 2) u = custom ? hwy::MakeUniqueAlignedArrayWithAlloc<E>(n, heap::AllocCb, heap::FreeCb, &heap::kOpaque, lv) : hwy::MakeUniqueAlignedArray<E>(n, lv);
          else u = custom ? hwy::MakeUniqueAlignedArrayWithAlloc<E>(n, heap::AllocCb, heap::FreeCb, &heap::kOpaque, Arg(y)) : hwy::MakeUniqueAlignedArray<E>(n, Arg(y));
          s.arr[i] = std::move(u);
          H().on = false;
          Ev("make", sl, over ? 0ul : n, N, arg, Raw{H().Take()}, H().Off(s.arr[i].get()));
        } else {
          hwy::AlignedUniquePtr<E> u;
          if (how == 0) u = custom ? hwy::MakeUniqueAlignedWithAlloc<E>(heap::AllocCb, heap::FreeCb, &heap::kOpaque) : hwy::MakeUniqueAligned<E>();
          else if (how == 1) u = custom ? hwy::MakeUniqueAlignedWithAlloc<E>(heap::AllocCb, heap::FreeCb, &heap::kOpaque, x, y) : hwy::MakeUniqueAligned<E>(x, y);
          else if (how == 2) u = custom ? hwy::MakeUniqueAlignedWithAlloc<E>(heap::AllocCb, heap::FreeCb, &heap::kOpaque, lv) : hwy::MakeUniqueAligned<E>(lv);
          else u = custom ? hwy::MakeUniqueAlignedWithAlloc<E>(heap::AllocCb, heap::FreeCb, &heap::kOpaque, Arg(y)) : hwy::MakeUniqueAligned<E>(Arg(y));
          s.one[i] = std::move(u);
          H().on = false;
          Ev("make", sl, 1ul, N, arg, Raw{H().Take()}, H().Off(s.one[i].get()));
        }
      } else if (op < 8) {
        if (arr) s.arr[i].reset(); else s.one[i].reset();
        H().on = false;
        Ev("reset", sl, Raw{H().Take()}, arr ? H().Off(s.arr[i].get()) : H().Off(s.one[i].get()));
      } else if (op < 10 && i != j) {
        if (arr) s.arr[i] = std::move(s.arr[j]); else s.one[i] = std::move(s.one[j]);
        H().on = false;
        Ev("move", sl, sj, Raw{H().Take()}, arr ? H().Off(s.arr[i].get()) : H().Off(s.one[i].get()), arr ? H().Off(s.arr[j].get()) : H().Off(s.one[j].get()));
      } else if (op == 10 && i != j) {
        if (arr) s.arr[i].swap(s.arr[j]); else s.one[i].swap(s.one[j]);
        H().on = false;
        Ev("swap", sl, sj, Raw{H().Take()}, arr ? H().Off(s.arr[i].get()) : H().Off(s.one[i].get()), arr ? H().Off(s.arr[j].get()) : H().Off(s.one[j].get()));
      } else {   // release and delete through a copy of the deleter
        if (arr) { auto d = s.arr[i].get_deleter(); auto* p = s.arr[i].release(); d(p); }
        else { auto d = s.one[i].get_deleter(); auto* p = s.one[i].release(); d(p); }
        H().on = false;
        Ev("reset", sl, Raw{H().Take()}, arr ? H().Off(s.arr[i].get()) : H().Off(s.one[i].get()));
      }
      H().on = false; H().fail_in = -1;
    }
    for (int k = 0; k < 6; ++k) {
      { heap::Redirect r; if (k < 3) s.one[k].reset(); else s.arr[k - 3].reset(); }
      Ev("reset", k, Raw{H().Take()}, -1L);
    }
  }
  Ev("end", Raw{H().Take()}, H().live.size(), H().Guards());
}
int main(int argc, char** argv) {
  auto a = vt::Init(argc, argv);
  const int eps = a.thorough ? 5000 : 1000;
  for (int e = 0; e < eps; ++e) {
    vt::Rng rng(a.seed * 104729 + e);
    H().Reset(rng.next());
    H().mode = e % 4;
    vt::Begin();
    switch (e % 6) {
      case 0: Episode<1>(rng); break; case 1: Episode<8>(rng); break; case 2: Episode<24>(rng); break;
      case 3: Episode<40>(rng); break; case 4: Episode<128>(rng); break; default: Episode<200>(rng);
    }
    vt::End();
  }
  return vt::Done();
}
