// P19: the unroller.  Units log every call they receive.
#include "simd/common.h"
#include "simd/arena.h"
#include "hwy/contrib/unroller/unroller-inl.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
struct Log { std::string ev; size_t n = 0; void Add(const std::string& s) { ev += n++ ? "," + s : s; } };
static Log g_log;
template <typename V> long long L(V v) { return static_cast<long long>(v); }
template <class D> std::string Lanes_(D d, const Vec<D> v) {
  HWY_ALIGN TFromD<D> b[64]; StoreU(v, d, b); std::string s = "[";
  for (size_t i = 0; i < Lanes(d); ++i) s += (i ? "," : "") + std::to_string(L(b[i]));
  return s + "]";
}
enum Kind { kMap, kStop, kAcc };
struct Ctl { long long key = -1; };   // kStop: StoreAndShortCircuit returns false once it has seen the key
static Ctl g_ctl;
static void Ev(const char* k, ptrdiff_t idx, const std::string& a, const std::string& b, int ret) {
  g_log.Add(std::string("{\"k\":\"") + k + "\",\"i\":" + std::to_string(L(idx)) + ",\"a\":" + a + ",\"b\":" + b + ",\"r\":" + std::to_string(ret) + "}");
}
template <class D> bool HasKey(D d, const Vec<D> v) {
  HWY_ALIGN TFromD<D> b[64]; StoreU(v, d, b); bool f = false;
  for (size_t i = 0; i < Lanes(d); ++i) f |= L(b[i]) == g_ctl.key;
  return f;
}
// y = 3 x + 1, or y += x
template <typename IN, typename OUT, int kKind> struct Unit1 : UnrollerUnit<Unit1<IN, OUT, kKind>, IN, OUT> {
  using TT = UnrollerUnit<Unit1<IN, OUT, kKind>, IN, OUT>;
  using IT = typename TT::IT; using OT = typename TT::OT;
  HWY_NOINLINE Vec<OT> Func(const ptrdiff_t idx, const Vec<IT> x, const Vec<OT> y) {
    const IT di; const OT dO; HWY_ALIGN IN xi[64]; HWY_ALIGN OUT yi[64];
    StoreU(x, di, xi); StoreU(y, dO, yi);
    for (size_t i = 0; i < Lanes(dO); ++i) yi[i] = kKind == kAcc ? static_cast<OUT>(yi[i] + static_cast<OUT>(xi[i])) : static_cast<OUT>(3 * L(xi[i]) + 1);
    Ev("F", idx, Lanes_(di, x), "[]", 0);
    return LoadU(dO, yi);
  }
  bool StoreAndShortCircuitImpl(const ptrdiff_t idx, OUT* to, const Vec<OT> x) {
    const OT d; bool r = true;
    if (kKind != kAcc) { StoreU(x, d, to + idx); if (kKind == kStop) r = !HasKey(d, x); Ev("S", idx, Lanes_(d, x), "[]", r); }
    return r;
  }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t idx, OUT* to, const Vec<OT> x, const ptrdiff_t places) {
    if (kKind == kAcc) return 0;
    Ev("M", idx, Lanes_(OT(), x), "[]", static_cast<int>(places));
    return TT::MaskStoreImpl(idx, to, x, places);
  }
  ptrdiff_t ReduceImpl(const Vec<OT> x, OUT* to) {
    if (kKind != kAcc) return 0;
    const OT d; HWY_ALIGN OUT b[64]; StoreU(x, d, b); OUT s = 0;
    for (size_t i = 0; i < Lanes(d); ++i) s = static_cast<OUT>(s + b[i]);
    to[0] = s; return 1;
  }
  void ReduceImpl(const Vec<OT> x0, const Vec<OT> x1, const Vec<OT> x2, Vec<OT>* y) { if (kKind == kAcc) *y = Add(Add(*y, x0), Add(x1, x2)); }
};
// y = x0 - 2 x1, or y += x0 * x1
template <typename IN0, typename IN1, typename OUT, int kKind> struct Unit2 : UnrollerUnit2D<Unit2<IN0, IN1, OUT, kKind>, IN0, IN1, OUT> {
  using TT = UnrollerUnit2D<Unit2<IN0, IN1, OUT, kKind>, IN0, IN1, OUT>;
  using I0T = typename TT::I0T; using I1T = typename TT::I1T; using OT = typename TT::OT;
  HWY_NOINLINE Vec<OT> Func(const ptrdiff_t idx, const Vec<I0T> x0, const Vec<I1T> x1, const Vec<OT> y) {
    const I0T d0; const I1T d1; const OT dO; HWY_ALIGN IN0 a[64]; HWY_ALIGN IN1 b[64]; HWY_ALIGN OUT yi[64];
    StoreU(x0, d0, a); StoreU(x1, d1, b); StoreU(y, dO, yi);
    for (size_t i = 0; i < Lanes(dO); ++i) yi[i] = static_cast<OUT>(kKind == kAcc ? L(yi[i]) + L(a[i]) * L(b[i]) : L(a[i]) * 2 + L(b[i]));
    Ev("F", idx, Lanes_(d0, x0), Lanes_(d1, x1), 0);
    return LoadU(dO, yi);
  }
  bool StoreAndShortCircuitImpl(const ptrdiff_t idx, OUT* to, const Vec<OT> x) {
    const OT d; bool r = true;
    if (kKind != kAcc) { StoreU(x, d, to + idx); if (kKind == kStop) r = !HasKey(d, x); Ev("S", idx, Lanes_(d, x), "[]", r); }
    return r;
  }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t idx, OUT* to, const Vec<OT> x, const ptrdiff_t places) {
    if (kKind == kAcc) return 0;
    Ev("M", idx, Lanes_(OT(), x), "[]", static_cast<int>(places));
    return TT::MaskStoreImpl(idx, to, x, places);
  }
  ptrdiff_t ReduceImpl(const Vec<OT> x, OUT* to) {
    if (kKind != kAcc) return 0;
    const OT d; HWY_ALIGN OUT b[64]; StoreU(x, d, b); OUT s = 0;
    for (size_t i = 0; i < Lanes(d); ++i) s = static_cast<OUT>(s + b[i]);
    to[0] = s; return 1;
  }
  void ReduceImpl(const Vec<OT> x0, const Vec<OT> x1, const Vec<OT> x2, Vec<OT>* y) { if (kKind == kAcc) *y = Add(Add(*y, x0), Add(x1, x2)); }
};
template <typename T> Window Arr(int arena, int kind, size_t n, Rng& g, std::vector<long long>& vals, long long base) {
  Window w = Place(arena, kind, n * sizeof(T), sizeof(T), g.below(8)); Scramble(w, g);
  vals.clear();
  for (size_t i = 0; i < n; ++i) { const T v = static_cast<T>(base + static_cast<long long>(i)); vals.push_back(L(v)); memcpy(w.p + i * sizeof(T), &v, sizeof(T)); }
  for (size_t i = n; i > 1; --i) { const size_t j = g.below(static_cast<uint32_t>(i)); std::swap(vals[i - 1], vals[j]); }
  for (size_t i = 0; i < n; ++i) { const T v = static_cast<T>(vals[i]); memcpy(w.p + i * sizeof(T), &v, sizeof(T)); }
  return w;
}
static Bytes Around(const Window& w) { Bytes b(w.begin(), w.p); b.insert(b.end(), w.p + w.len, w.p + w.len + w.post); return b; }
template <typename IN0, typename IN1, typename OUT, int kKind, bool k2D> HWY_NOINLINE void One(size_t n, Rng& g) {
  static const char* names[] = {"Map", "Stop", "Acc"};
  E().cur = std::string("Unroll") + names[kKind] + " " + TName<IN0>() + TName<OUT>();
  const int kind = static_cast<int>(g.below(3));
  std::vector<long long> x0, x1;
  Window w0 = Arr<IN0>(0, kind, n, g, x0, 1), w1 = Arr<IN1>(1, kind, n, g, x1, 2);
  const size_t ny = kKind == kAcc ? 1 : n;
  Window y = Place(2, kind, ny * sizeof(OUT), sizeof(OUT), g.below(8)); Scramble(y, g);
  for (size_t i = 0; i < ny; ++i) { const OUT s = static_cast<OUT>(0); memcpy(y.p + i * sizeof(OUT), &s, sizeof(OUT)); }
  g_ctl.key = -1;
  if (kKind == kStop && n && g.below(4)) { const size_t e = g.below(static_cast<uint32_t>(n)); g_ctl.key = k2D ? 2 * x0[e] + x1[e] : 3 * x0[e] + 1; }
  const Bytes b0(w0.begin(), w0.begin() + w0.size()), b1(w1.begin(), w1.begin() + w1.size()), ay = Around(y);
  g_log = Log();
  const bool fault = Faults([&]() HWY_ATTR {
    if constexpr (k2D) { Unit2<IN0, IN1, OUT, kKind> f; Unroller(f, reinterpret_cast<IN0*>(w0.p), reinterpret_cast<IN1*>(w1.p), reinterpret_cast<OUT*>(y.p), static_cast<ptrdiff_t>(n)); }
    else { Unit1<IN0, OUT, kKind> f; Unroller(f, reinterpret_cast<const IN0*>(w0.p), reinterpret_cast<OUT*>(y.p), static_cast<ptrdiff_t>(n)); }
  });
  const bool kept = b0 == Bytes(w0.begin(), w0.begin() + w0.size()) && b1 == Bytes(w1.begin(), w1.begin() + w1.size()) && ay == Around(y);
  std::vector<long long> out; for (size_t i = 0; i < ny; ++i) { OUT v; memcpy(&v, y.p + i * sizeof(OUT), sizeof(OUT)); out.push_back(L(v)); }
  RecX(k2D ? "Unroll2" : "Unroll1", (std::string(TName<IN0>()) + "-" + (k2D ? std::string(TName<IN1>()) + "-" : std::string()) + TName<OUT>()).c_str(),
    std::string("\"kind\":\"") + names[kKind] + "\",\"n\":" + std::to_string(n) + ",\"fault\":" + std::to_string(int(fault)) + ",\"kept\":" + std::to_string(int(kept)) +
    ",\"x0\":" + JI(x0) + ",\"x1\":" + JI(k2D ? x1 : std::vector<long long>()) + ",\"out\":" + JI(out) + ",\"ev\":[" + g_log.ev + "]");
}
template <typename IN0, typename IN1, typename OUT> HWY_NOINLINE void Types() {
  Rng g(E().seed + sizeof(IN0) * 8 + sizeof(OUT));
  const size_t N = HWY_MIN(HWY_LANES(IN0), HWY_MIN(HWY_LANES(IN1), HWY_LANES(OUT)));
  const size_t cap = (sizeof(IN0) == 1 || sizeof(IN1) == 1) ? 120 : sizeof(OUT) == 1 ? 40 : 600;
  auto run = [&](size_t n) {
    if (n > cap) return;
    if (n <= (sizeof(OUT) == 1 ? 80u : 1000u)) { One<IN0, IN1, OUT, kMap, false>(n, g); One<IN0, IN1, OUT, kMap, true>(n, g); One<IN0, IN1, OUT, kStop, false>(n, g); One<IN0, IN1, OUT, kStop, true>(n, g); }
    if (sizeof(OUT) >= 4 || hwy::IsSame<OUT, uint16_t>()) One<IN0, IN1, OUT, kAcc, false>(n, g);
    if (n <= 120 && sizeof(OUT) >= 4) One<IN0, IN1, OUT, kAcc, true>(n, g);
  };
  if (N <= 8 || E().thorough) { for (size_t n = 0; n <= 9 * N + 2; ++n) run(n); }
  else {
    for (size_t k : {0, 1, 2, 4, 5, 8}) for (size_t m : {0, 1, 2}) if (k * N + m >= 1) run(k * N + m - 1);
    for (int r = 0; r < 12; ++r) run(g.below(static_cast<uint32_t>(9 * N)));
  }
}
void Main() {
  InstallFault();
  Types<int32_t, int32_t, int32_t>(); Types<float, float, float>(); Types<int64_t, int64_t, int64_t>(); Types<uint16_t, uint16_t, uint16_t>();
  Types<uint8_t, int16_t, int32_t>(); Types<int16_t, uint8_t, uint8_t>(); Types<int32_t, float, int16_t>();
#if HWY_HAVE_FLOAT64
  Types<double, double, double>(); Types<float, int32_t, double>();
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
