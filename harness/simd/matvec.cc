// P22: matrix-vector products of integers of which all partial sums are representable.
#include <math.h>
#include "simd/common.h"
#include "simd/arena.h"
#include "hwy/contrib/thread_pool/thread_pool.h"
#include "hwy/contrib/matvec/matvec-inl.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
inline ThreadPool& Pool(size_t n) { static ThreadPool p0(0), p1(1), p2(2), p3(3); return n == 0 ? p0 : n == 1 ? p1 : n == 2 ? p2 : p3; }
// Memory that ends (kind 0) or starts (kind 1) at an inaccessible page.
struct Big {
  uint8_t* lo; size_t size;
  explicit Big(size_t bytes) { size = (bytes + 8191) / 4096 * 4096; uint8_t* p = static_cast<uint8_t*>(mmap(nullptr, size + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (p == MAP_FAILED) abort(); lo = p + 4096; if (mprotect(lo, size, PROT_READ | PROT_WRITE)) abort(); memset(lo, 0xFF, size); }
  ~Big() { munmap(lo - 4096, size + 8192); }
  Big(const Big&) = delete;
  uint8_t* At(int kind, size_t bytes) { return kind == 0 ? lo + size - bytes : lo; }
};
template <typename T> T Num(double v) { return ConvertScalarTo<T>(v); }
template <size_t kR, size_t kC, bool kAdd, typename TM, typename TV, typename TO> HWY_NOINLINE void One(double bound, double addmax, Rng& g) {
  E().cur = std::string("MatVec ") + TName<TM>() + TName<TV>();
  const int kind = static_cast<int>(g.below(2));
  const size_t pool = g.below(4);
  using TAdd = TV;
  Big m(kR * kC * sizeof(TM)), v(kC * sizeof(TV)), ad(kR * sizeof(TAdd)), o(kR * sizeof(TO) + 256);
  TM* pm = reinterpret_cast<TM*>(m.At(kind, kR * kC * sizeof(TM))); TV* pv = reinterpret_cast<TV*>(v.At(kind, kC * sizeof(TV))); TAdd* pa = reinterpret_cast<TAdd*>(ad.At(kind, kR * sizeof(TAdd)));
  // out must be aligned: start at a page, or end as close to the next page as that permits.
  const size_t ob = (kR * sizeof(TO) + HWY_ALIGNMENT - 1) / HWY_ALIGNMENT * HWY_ALIGNMENT;
  TO* po = reinterpret_cast<TO*>(kind ? o.lo : o.lo + o.size - ob);
  memset(o.lo, 0x5A, o.size);
  std::vector<double> xm, xv, xa;
  const uint32_t style = g.below(3); const size_t hot = g.below(static_cast<uint32_t>(kC));
  auto num = [&](double b) { return static_cast<double>(static_cast<long>(g.next() % static_cast<uint64_t>(2 * b + 1)) - static_cast<long>(b)); };
  for (size_t i = 0; i < kR * kC; ++i) { xm.push_back(num(bound)); pm[i] = Num<TM>(xm[i]); }
  for (size_t i = 0; i < kC; ++i) { xv.push_back(style == 0 ? (i == hot ? bound : 0) : num(bound)); pv[i] = Num<TV>(xv[i]); }
  for (size_t i = 0; i < kR; ++i) { xa.push_back(num(addmax)); pa[i] = Num<TAdd>(xa[i]); }
  const bool fault = Faults([&]() HWY_ATTR {
    if constexpr (std::is_same<TM, TV>::value && std::is_same<TM, TO>::value) { if constexpr (kAdd) MatVecAdd<kR, kC, TM>(pm, pv, pa, po, Pool(pool)); else MatVec<kR, kC, TM>(pm, pv, po, Pool(pool)); }
    else { if constexpr (kAdd) MatVecAdd<kR, kC>(pm, pv, pa, po, Pool(pool)); else MatVec<kR, kC>(pm, pv, po, Pool(pool)); }
  });
  bool kept = true;
  for (uint8_t* p = o.lo; p != o.lo + o.size; ++p) if (p < reinterpret_cast<uint8_t*>(po) || p >= reinterpret_cast<uint8_t*>(po + kR)) kept &= *p == 0x5A;
  for (size_t i = 0; i < kR * kC; ++i) kept &= ConvertScalarTo<double>(pm[i]) == xm[i];
  for (size_t i = 0; i < kC; ++i) kept &= ConvertScalarTo<double>(pv[i]) == xv[i];
  auto ints = [](const std::vector<double>& x) { std::vector<long> r; for (double d : x) r.push_back(static_cast<long>(d)); return r; };
  std::vector<long> out; bool exact = true;
  for (size_t i = 0; i < kR; ++i) { const double d = ConvertScalarTo<double>(po[i]); exact &= d == floor(d) && fabs(d) < 2147483648.0; out.push_back(fabs(d) < 2147483648.0 ? static_cast<long>(d) : 0); }
  const std::vector<long> im = ints(xm);
  std::string rows; for (size_t r = 0; r < kR; ++r) rows += (r ? "," : "") + JI(std::vector<long>(im.begin() + static_cast<long>(r * kC), im.begin() + static_cast<long>((r + 1) * kC)));
  RecX(kAdd ? "MatVecAdd" : "MatVec", (std::string(TName<TM>()) + "-" + TName<TV>()).c_str(), "\"pool\":" + std::to_string(pool) + ",\"fault\":" + std::to_string(int(fault)) + ",\"kept\":" + std::to_string(int(kept)) + ",\"exact\":" + std::to_string(int(exact)) +
    ",\"m\":[" + rows + "],\"v\":" + JI(ints(xv)) + ",\"add\":" + JI(ints(xa)) + ",\"out\":" + JI(out));
}
template <size_t kR, size_t kC, typename TM, typename TV, typename TO> void Both(double bound, double addmax, Rng& g) {
  for (int i = 0; i < (E().thorough ? 6 : kR * kC > 2000 ? 1 : 2); ++i) { One<kR, kC, true, TM, TV, TO>(bound, addmax, g); One<kR, kC, false, TM, TV, TO>(bound, addmax, g); }
}
template <typename TM, typename TV, typename TO> HWY_NOINLINE void Shapes(double bound, double addmax) {
  Rng g(E().seed + sizeof(TM) * 16 + sizeof(TV));
  Both<1, 1, TM, TV, TO>(bound, addmax, g); Both<3, 7, TM, TV, TO>(bound, addmax, g); Both<8, 3, TM, TV, TO>(bound, addmax, g); Both<16, 16, TM, TV, TO>(bound, addmax, g); Both<17, 33, TM, TV, TO>(bound, addmax, g);
  Both<33, 65, TM, TV, TO>(bound, addmax, g); Both<64, 5, TM, TV, TO>(bound, addmax, g); Both<70, 31, TM, TV, TO>(bound, addmax, g); Both<35, 127, TM, TV, TO>(bound, addmax, g); Both<32, 192, TM, TV, TO>(bound, addmax, g); Both<5, 100, TM, TV, TO>(bound, addmax, g); Both<2, 64, TM, TV, TO>(bound, addmax, g);
}
void Main() {
  InstallFault();
#if VPART == 0
  Shapes<float, float, float>(100, 4e6);
#if HWY_HAVE_FLOAT64
  Shapes<double, double, double>(1000, 1e9);
#endif
#if HWY_HAVE_FLOAT16
  Shapes<float16_t, float16_t, float16_t>(2, 500);
#endif
#else
#if HWY_TARGET != HWY_SCALAR
  Shapes<bfloat16_t, float, float>(100, 4e6);
  Shapes<bfloat16_t, bfloat16_t, float>(100, 200);
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
