// P16/P17: algorithms on arrays.  Elements are recorded as identifiers of their bit patterns.
#include <functional>
#include <unordered_map>
#include "simd/common.h"
#include "simd/arena.h"
#include "hwy/contrib/algo/copy-inl.h"
#include "hwy/contrib/algo/find-inl.h"
#include "hwy/contrib/algo/transform-inl.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
using Ids = std::vector<uint32_t>;
struct Dict {
  std::unordered_map<uint64_t, uint32_t> m; std::vector<uint64_t> bits;
  uint32_t Id(uint64_t b) { auto it = m.find(b); if (it != m.end()) return it->second; bits.push_back(b); const uint32_t id = static_cast<uint32_t>(bits.size()); m[b] = id; return id; }
};
template <class D> HWY_NOINLINE MFromD<D> InMask(D d, const uint8_t* bools) {
  using TU = MakeUnsigned<TFromD<D>>;
  const Rebind<TU, D> du;
  HWY_ALIGN TU buf[64];
  for (size_t i = 0; i < Lanes(d); ++i) buf[i] = bools[i] ? static_cast<TU>(~TU{0}) : TU{0};
  return MaskFromVec(BitCast(d, LoadU(du, buf)));
}
template <class D> struct Algo {
  using T = TFromD<D>;
  static constexpr size_t S = sizeof(T);
  D d; size_t N; Rng g; Dict dict;
  std::string calls; size_t ncalls = 0;
  Algo() : N(Lanes(d)), g(E().seed + 900 + S + Lanes(d) + (IsFloat<T>() ? 50 : 0)) {}
  uint64_t Value() {
    const uint64_t m = S == 8 ? ~0ull : (1ull << (8 * S % 64)) - 1;
    if (g.below(6) == 0) { const uint64_t nan = S == 8 ? 0x7FF8000000000001ull : S == 4 ? 0x7FC00001u : 0x7FC1u; const uint64_t c[] = {0, 1ull << (8 * S - 1), nan, nan | (1ull << (8 * S - 1)), 1, m}; return c[g.below(6)] & m; }
    return g.next() & m;
  }
  // Array in arena `i` of n elements; kind: see Place.
  Window Arr(int i, size_t n, int kind) { Window w = Place(i, kind, n * S, S, g.below(16)); Scramble(w, g); for (size_t k = 0; k < n; ++k) Put1(w, k, Value()); return w; }
  static T* P(const Window& w) { return reinterpret_cast<T*>(w.p); }
  static void Put1(const Window& w, size_t k, uint64_t b) { memcpy(w.p + k * S, &b, S); }
  static uint64_t Get1(const uint8_t* p, size_t k) { uint64_t b = 0; memcpy(&b, p + k * S, S); return b; }
  Ids IdsOf(const Window& w) { Ids r; for (size_t k = 0; k < w.len / S; ++k) r.push_back(dict.Id(Get1(w.p, k))); return r; }
  // The memory outside the window's elements.
  static Bytes Around(const Window& w) { Bytes b(w.begin(), w.p); b.insert(b.end(), w.p + w.len, w.p + w.len + w.post); return b; }
  static uint64_t F(uint64_t a, uint64_t b, uint64_t c) { return (a * 3 + b * 5 + c * 7 + 11) & (S == 8 ? ~0ull : (1ull << (8 * S % 64)) - 1); }
  uint64_t salt = 0;
  bool Pred(uint64_t a) const { return (((a ^ salt) * 0x9E3779B97F4A7C15ull) >> 60) < dens; }
  uint32_t dens = 8;
  template <class D2> HWY_NOINLINE VFromD<D2> Call(D2 d2, const T* a, const T* b, const T* c) {
    HWY_ALIGN T o[64]; const size_t n = Lanes(d2);
    calls += ncalls++ ? ",[" : "[";
    for (size_t i = 0; i < n; ++i) {
      const uint64_t x = ToBits(a[i]), y = b ? ToBits(b[i]) : 0, z = c ? ToBits(c[i]) : 0, r = F(x, y, z);
      o[i] = FromBits<T>(r);
      calls += (i ? ",[" : "[") + std::to_string(dict.Id(x)) + "," + std::to_string(b ? dict.Id(y) : 0) + "," + std::to_string(c ? dict.Id(z) : 0) + "," + std::to_string(dict.Id(r)) + "]";
    }
    calls += "]";
    return LoadU(d2, o);
  }
  template <class D2> HWY_NOINLINE MFromD<D2> CallP(D2 d2, const T* a) {
    HWY_ALIGN uint8_t o[64]; const size_t n = Lanes(d2);
    calls += ncalls++ ? ",[" : "[";
    for (size_t i = 0; i < n; ++i) { o[i] = Pred(ToBits(a[i])); calls += (i ? ",[" : "[") + std::to_string(dict.Id(ToBits(a[i]))) + "," + std::to_string(int(o[i])) + "]"; }
    calls += "]";
    return InMask(d2, o);
  }
  template <class F> HWY_NOINLINE void Run(const char* op, size_t cnt, Window io, const Window* in1, const Window* in2, const std::string& more, const F& f, const std::function<std::string()>& res = nullptr) {
    E().cur = std::string(op) + " " + TName<T>();
    const Ids a = IdsOf(io), b = in1 ? IdsOf(*in1) : Ids(), c = in2 ? IdsOf(*in2) : Ids();
    Bytes ar = Around(io), ar1 = in1 ? Around(*in1) : Bytes(), ar2 = in2 ? Around(*in2) : Bytes();
    calls.clear(); ncalls = 0;
    const bool fault = Faults(f);
    const bool ok = ar == Around(io) && (!in1 || (ar1 == Around(*in1) && b == IdsOf(*in1))) && (!in2 || (ar2 == Around(*in2) && c == IdsOf(*in2)));
    std::string x = "\"n\":" + std::to_string(N) + ",\"cnt\":" + std::to_string(cnt) + ",\"fault\":" + std::to_string(int(fault)) + ",\"kept\":" + std::to_string(int(ok)) + ",\"a\":" + JI(a) + ",\"b\":" + JI(b) + ",\"c2\":" + JI(c) +
      ",\"out\":" + JI(IdsOf(io)) + ",\"z\":" + std::to_string(dict.Id(0)) + ",\"calls\":[" + calls + "]" + more + (res ? res() : std::string());
    RecX(op, TName<T>(), x);
  }
  std::string Table() {   // the bit patterns, for operations that compare
    std::string s = ",\"d\":[";
    for (size_t i = 0; i < dict.bits.size(); ++i) { uint8_t t[8]; memcpy(t, &dict.bits[i], 8); s += i ? ",[" : "["; AppendBytes(s, t, S); s += "]"; }
    return s + "]";
  }
  void New() { dict = Dict(); salt = g.next(); const uint32_t ds[] = {1, 4, 8, 12, 16, 0}; dens = ds[g.below(6)]; }
  HWY_NOINLINE void All() {
    std::vector<size_t> counts = {0, 1, N - 1, N, N + 1, 2 * N, 2 * N - 1 + g.below(3), 3 * N + g.below(static_cast<uint32_t>(N))};
    for (int i = 0; i < (E().thorough ? 20 : 2); ++i) counts.push_back(g.below(static_cast<uint32_t>(5 * N + 3)));
    if (E().thorough) { counts.push_back(300 + g.below(300)); for (size_t i = 0; i <= 2 * N + 1; ++i) counts.push_back(i); }
    for (size_t n : counts) for (int kind = 0; kind < 2; ++kind) {
      if (kind == 1 && g.below(2)) kind = 2;
#if !VSEL
      { New(); Window o = Arr(0, n, kind);
        const RebindToUnsigned<D> du; using TU = TFromD<decltype(du)>;
        // Index lanes are recorded modulo 256 steps as they are.
        Run("Generate", n, o, nullptr, nullptr, "", [&]() HWY_ATTR {
          Generate(d, P(o), n, [&](auto d2, auto v) HWY_ATTR {
            HWY_ALIGN TU ix[64]; HWY_ALIGN T r[64]; StoreU(v, RebindToUnsigned<decltype(d2)>(), ix);
            calls += ncalls++ ? ",[" : "[";
            for (size_t i = 0; i < Lanes(d2); ++i) { const uint64_t q = F(ix[i], salt, 0); r[i] = FromBits<T>(q); calls += (i ? ",[" : "[") + std::to_string(ix[i] < 100000 ? static_cast<unsigned>(ix[i]) : 999999u) + "," + std::to_string(dict.Id(q)) + "]"; }
            calls += "]";
            return LoadU(d2, r);
          }); }); }
      { New(); Window o = Arr(0, n, kind); HWY_ALIGN T no[64]; Ids nos; for (size_t i = 0; i < N; ++i) { uint64_t b = Value(); no[i] = FromBits<T>(b); nos.push_back(dict.Id(b)); }
        Run("Foreach", n, o, nullptr, nullptr, ",\"no\":" + JI(nos), [&]() HWY_ATTR {
          Foreach(d, P(o), n, LoadU(d, no), [&](auto d2, auto v) HWY_ATTR { HWY_ALIGN T a[64]; StoreU(v, d2, a); (void)Call(d2, a, nullptr, nullptr); }); }); }
      { New(); Window o = Arr(0, n, kind);
        Run("Transform", n, o, nullptr, nullptr, "", [&]() HWY_ATTR {
          Transform(d, P(o), n, [&](auto d2, auto v) HWY_ATTR { HWY_ALIGN T a[64]; StoreU(v, d2, a); return Call(d2, a, nullptr, nullptr); }); }); }
      { New(); Window o = Arr(0, n, kind), i1 = Arr(1, n, static_cast<int>(g.below(3)));
        Run("Transform1", n, o, &i1, nullptr, "", [&]() HWY_ATTR {
          Transform1(d, P(o), n, P(i1), [&](auto d2, auto v, auto v1) HWY_ATTR { HWY_ALIGN T a[64]; HWY_ALIGN T b[64]; StoreU(v, d2, a); StoreU(v1, d2, b); return Call(d2, a, b, nullptr); }); }); }
      { New(); Window o = Arr(0, n, kind), i1 = Arr(1, n, static_cast<int>(g.below(3))), i2 = Arr(2, n, static_cast<int>(g.below(3)));
        Run("Transform2", n, o, &i1, &i2, "", [&]() HWY_ATTR {
          Transform2(d, P(o), n, P(i1), P(i2), [&](auto d2, auto v, auto v1, auto v2) HWY_ATTR { HWY_ALIGN T a[64]; HWY_ALIGN T b[64]; HWY_ALIGN T c[64]; StoreU(v, d2, a); StoreU(v1, d2, b); StoreU(v2, d2, c); return Call(d2, a, b, c); }); }); }
      { New(); Window o = Arr(0, n, kind); const uint64_t nv = Value(); const uint32_t nid = dict.Id(nv);
        Run("ReplaceIf", n, o, nullptr, nullptr, ",\"new\":" + std::to_string(nid), [&]() HWY_ATTR {
          ReplaceIf(d, P(o), n, FromBits<T>(nv), [&](auto d2, auto v) HWY_ATTR { HWY_ALIGN T a[64]; StoreU(v, d2, a); return CallP(d2, a); }); }); }
      if constexpr (!IsSpecialFloat<T>()) {
        New(); Window o = Arr(0, n, kind); uint64_t nv = Value(), ov = n && g.below(8) ? Get1(o.p, g.below(static_cast<uint32_t>(n))) : Value();
        for (size_t k = 0; k < n; ++k) if (g.below(4) == 0) Put1(o, k, ov);
        if (IsFloat<T>() && g.below(3) == 0) ov = g.below(2) ? 0 : 1ull << (8 * S - 1);
        const uint32_t ni = dict.Id(nv), oi = dict.Id(ov);
        Run("Replace", n, o, nullptr, nullptr, ",\"new\":" + std::to_string(ni) + ",\"old\":" + std::to_string(oi), [&]() HWY_ATTR { Replace(d, P(o), n, FromBits<T>(nv), FromBits<T>(ov)); }, [&] { return Table(); }); }
      { New(); Window o = Arr(0, n, kind); const uint64_t nv = Value(); const uint32_t nid = dict.Id(nv);
        Run("Fill", n, o, nullptr, nullptr, ",\"new\":" + std::to_string(nid), [&]() HWY_ATTR { Fill(d, FromBits<T>(nv), n, P(o)); }); }
      { New(); Window o = Arr(0, n, kind), i1 = Arr(1, n, static_cast<int>(g.below(3)));
        Run("Copy", n, o, &i1, nullptr, "", [&]() HWY_ATTR { Copy(d, P(i1), n, P(o)); }); }
      if constexpr (S >= 2) {
        New(); Window i1 = Arr(1, n, static_cast<int>(g.below(3)));
        size_t kept = 0; for (size_t k = 0; k < n; ++k) kept += Pred(Get1(i1.p, k));
        Window o = Arr(0, kept, kind); uint32_t ret = 999999;
        Run("CopyIf", n, o, &i1, nullptr, "", [&]() HWY_ATTR { T* e = CopyIf(d, P(i1), n, P(o), [&](auto d2, auto v) HWY_ATTR { HWY_ALIGN T a[64]; StoreU(v, d2, a); return CallP(d2, a); });
          const ptrdiff_t df = e - P(o); ret = df >= 0 && df < 99999 ? static_cast<uint32_t>(df) : 99999u; }, [&] { return ",\"ret\":" + std::to_string(ret); }); }
#else
      for (int rep = 0; rep < 3; ++rep) {
      if constexpr (!IsSpecialFloat<T>()) {
        New(); Window o = Arr(0, n, kind); uint64_t v = Value();
        if (n && g.below(6)) { const size_t at = g.below(static_cast<uint32_t>(n)); v = Get1(o.p, at); for (int q = 0; q < 2; ++q) if (g.below(2)) Put1(o, g.below(static_cast<uint32_t>(n)), v); }
        else if (n && g.below(2)) { v = 0; for (size_t k = 0; k < n; ++k) if (Get1(o.p, k) == 0) Put1(o, k, 1); }
        if (IsFloat<T>() && g.below(4) == 0) v = g.below(2) ? 0 : 1ull << (8 * S - 1);
        // bytes around the array equal the value
        for (size_t q = 0; q + S <= o.post; q += S) memcpy(o.p + o.len + q, &v, S);
        for (size_t q = S; q <= o.pre; q += S) memcpy(o.p - q, &v, S);
        const uint32_t vi = dict.Id(v); uint32_t ret = 999999;
        Run("Find", n, o, nullptr, nullptr, ",\"v\":" + std::to_string(vi), [&]() HWY_ATTR { const size_t r = Find(d, FromBits<T>(v), P(o), n); ret = r < 99999 ? static_cast<uint32_t>(r) : 99999u; }, [&] { return ",\"ret\":" + std::to_string(ret) + Table(); }); }
      { New(); dens = g.below(2) ? 1 : g.below(2) ? 0 : dens; Window o = Arr(0, n, kind); uint32_t ret = 999999;
        Run("FindIf", n, o, nullptr, nullptr, "", [&]() HWY_ATTR { const size_t r = FindIf(d, P(o), n, [&](auto d2, auto v) HWY_ATTR { HWY_ALIGN T a[64]; StoreU(v, d2, a); return CallP(d2, a); }); ret = r < 99999 ? static_cast<uint32_t>(r) : 99999u; },
          [&] { std::string p = ",\"ret\":" + std::to_string(ret) + ",\"yes\":["; bool first = true; for (size_t k = 0; k < dict.bits.size(); ++k) if (Pred(dict.bits[k])) { p += (first ? "" : ",") + std::to_string(k + 1); first = false; } return p + "]"; }); }
      }
#endif
    }
  }
};
template <typename T> HWY_NOINLINE void Type() {
  Algo<ScalableTag<T>>().All();
#if HWY_TARGET != HWY_SCALAR
  if constexpr (HWY_LANES(T) > 4) Algo<CappedTag<T, 4>>().All();
  if constexpr (HWY_LANES(T) > 8 / sizeof(T)) Algo<CappedTag<T, (8 / sizeof(T) > 1 ? 8 / sizeof(T) / 2 : 1)>>().All();
#endif
}
void Main() {
  InstallFault();
#if VPART == 0
  Type<uint8_t>(); Type<int16_t>(); Type<float>(); Type<uint64_t>();
#else
  Type<int8_t>(); Type<uint16_t>(); Type<uint32_t>(); Type<int32_t>(); Type<int64_t>();
#if HWY_HAVE_FLOAT64
  Type<double>();
#endif
#if HWY_HAVE_FLOAT16
  Type<float16_t>();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
