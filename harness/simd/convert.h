// Conversions between lane types: helpers shared by convert.cc (integers) and convertf.cc (floats).
#include <functional>
#include "simd/common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {

template <class D> HWY_NOINLINE VFromD<D> InVec(D d, const uint8_t* p) {
  using T = TFromD<D>;
  HWY_ALIGN T buf[128];
#if HWY_TARGET != HWY_SCALAR
  const ScalableTag<T> df;
  memset(buf, 0xC7, sizeof buf);
  memcpy(buf, p, Lanes(d) * sizeof(T));
  return ResizeBitCast(d, LoadU(df, buf));
#else
  memcpy(buf, p, sizeof(T));
  return LoadU(d, buf);
#endif
}
template <class D> HWY_NOINLINE void OutVec(D d, VFromD<D> v, Bytes& c) {
  HWY_ALIGN TFromD<D> buf[128];
  StoreU(v, d, buf);
  const uint8_t* b = reinterpret_cast<const uint8_t*>(buf);
  c.insert(c.end(), b, b + Lanes(d) * sizeof(TFromD<D>));
}
template <typename TTo> std::string XTo(size_t n = 0) { std::string s = std::string("\"to\":\"") + TName<TTo>() + "\""; return n ? s + ",\"n\":" + std::to_string(n) : s; }

// Lane-wise conversion f(dto, v) for every vector size that both types have.
template <typename TF, typename TTo, class F>
HWY_NOINLINE void Conv(const char* op, const std::vector<uint64_t>& in, const F& f) {
  E().cur = std::string(op) + " " + TName<TF>() + XTo<TTo>();
  for (char& ch : E().cur) if (ch == '"') ch = ' ';
  const size_t n = in.size();
  std::vector<uint64_t> first(n); std::vector<bool> have(n, false);
  auto body = [&](auto dw) HWY_ATTR {
    const Rebind<TF, decltype(dw)> df; const Rebind<TTo, decltype(dw)> dto;
    const size_t N = Lanes(df);
    HWY_ALIGN TTo out[128];
    std::vector<uint8_t> b(N * sizeof(TF));
    for (size_t at = 0; at < n; at += N) {
      for (size_t i = 0; i < N; ++i) { const TF x = FromBits<TF>(in[(at + i) % n]); memcpy(&b[i * sizeof(TF)], &x, sizeof(TF)); }
      StoreU(f(dto, InVec(df, b.data())), dto, out);
      for (size_t i = 0; i < N && at + i < n; ++i) {
        const uint64_t r = ToBits(out[i]);
        if (have[at + i] && first[at + i] == r) continue;
        have[at + i] = true; first[at + i] = r;
        Bytes c; Put(c, FromBits<TF>(in[at + i])); Put(c, out[i]);
        Rec(op, TName<TF>(), c, XTo<TTo>());
      }
    }
  };
  using TW = typename std::conditional<(sizeof(TF) > sizeof(TTo)), TF, TTo>::type;
  ForAllSizes<TW>(body);
}
#define CONV(OP, TF, TTO, IN, CALL) Conv<TF, TTO>(#OP, IN, [](auto dto, auto v) HWY_ATTR { return CALL; })

// f(dto, v): v has N lanes of TF, the result No lanes of TTo.
template <class DF, class DTo, class F> HWY_NOINLINE void Whole1(const char* op, DF df, DTo dto, const std::vector<uint64_t>& in, size_t reps, Rng& g, const F& f) {
  using TF = TFromD<DF>;
  E().cur = std::string(op) + " " + TName<TF>();
  for (size_t r = 0; r < reps; ++r) {
    Bytes c;
    for (size_t i = 0; i < Lanes(df); ++i) Put(c, FromBits<TF>(in[g.below(static_cast<uint32_t>(in.size()))]));
    OutVec(dto, f(InVec(df, c.data())), c);
    Rec(op, TName<TF>(), c, XTo<TFromD<DTo>>(Lanes(df)));
  }
}
template <class DF, class DTo, class F> HWY_NOINLINE void Whole2(const char* op, DF df, DTo dto, const std::vector<uint64_t>& in, size_t reps, Rng& g, const F& f) {
  using TF = TFromD<DF>;
  E().cur = std::string(op) + " " + TName<TF>();
  for (size_t r = 0; r < reps; ++r) {
    Bytes c;
    for (size_t i = 0; i < 2 * Lanes(df); ++i) Put(c, FromBits<TF>(in[g.below(static_cast<uint32_t>(in.size()))]));
    OutVec(dto, f(InVec(df, c.data()), InVec(df, c.data() + Lanes(df) * sizeof(TF))), c);
    Rec(op, TName<TF>(), c, XTo<TFromD<DTo>>(Lanes(df)));
  }
}
} } }
HWY_AFTER_NAMESPACE();
