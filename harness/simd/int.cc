// P23: integer arithmetic.
#include "simd/common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
#define UN(op) LaneWise<T, T, 1>(#op, in1, [](auto, auto a) HWY_ATTR { return op(a); })
#define BIN(op) LaneWise<T, T, 2>(#op, in2, [](auto, auto a, auto b) HWY_ATTR { return op(a, b); })
#define TER(op) LaneWise<T, T, 3>(#op, in3, [](auto, auto a, auto b, auto c) HWY_ATTR { return op(a, b, c); })

template <typename T> HWY_NOINLINE void TestMulWide() {
#if HWY_TARGET != HWY_SCALAR
  using TW = MakeWide<T>;
  const auto in2 = Tuples<T>(2, E().seed + 5, 300);
  E().cur = "MulWide";
  const size_t n = in2[0].size();
  std::vector<uint64_t> first(n); std::vector<bool> have(n, false);
  std::vector<Bytes> cases;
  HWY_ALIGN T buf[64]; HWY_ALIGN TW out[64];
  auto body = [&](auto d) HWY_ATTR {
    if constexpr (MaxLanes(d) >= 2) {
    const size_t N = Lanes(d);
    const RepartitionToWide<decltype(d)> dw;
    for (size_t at = 0; at < n; at += N) {
      const auto a = LoadBits(d, in2[0], at, buf);
      const auto b = LoadBits(d, in2[1], at, buf);
      for (int odd = 0; odd < 2; ++odd) {
        if (odd) StoreU(MulOdd(a, b), dw, out); else StoreU(MulEven(a, b), dw, out);
        for (size_t i = 0; i < N / 2; ++i) {
          const size_t k = at + 2 * i + odd;
          if (k >= n) continue;
          const uint64_t r = ToBits(out[i]);
          if (have[k] && first[k] == r) continue;
          have[k] = true; first[k] = r;
          Bytes c; Put(c, FromBits<T>(in2[0][k])); Put(c, FromBits<T>(in2[1][k])); Put(c, out[i]);
          cases.push_back(c);
        }
      }
    }
    }
  };
  ForSizes<T>(body);
  std::sort(cases.begin(), cases.end());
  EmitCases("MulWide", TName<T>(), cases);
#endif
}
// 64-bit: result occupies both lanes of the pair.
template <typename T> HWY_NOINLINE void TestMulWide64() {
#if HWY_TARGET != HWY_SCALAR
  const auto in2 = Tuples<T>(2, E().seed + 6, 300);
  E().cur = "MulWide64";
  const size_t n = in2[0].size();
  std::vector<Bytes> cases;
  HWY_ALIGN T buf[64]; HWY_ALIGN T out[64];
  auto body = [&](auto d) HWY_ATTR {
    if constexpr (MaxLanes(d) >= 2) {
      const size_t N = Lanes(d);
      for (size_t at = 0; at < n; at += N) {
        const auto a = LoadBits(d, in2[0], at, buf);
        const auto b = LoadBits(d, in2[1], at, buf);
        for (int odd = 0; odd < 2; ++odd) {
          if (odd) StoreU(MulOdd(a, b), d, out); else StoreU(MulEven(a, b), d, out);
          for (size_t i = 0; i < N; i += 2) {
            const size_t k = at + i + odd;
            if (k >= n) continue;
            Bytes c; Put(c, FromBits<T>(in2[0][k])); Put(c, FromBits<T>(in2[1][k])); Put(c, out[i]); Put(c, out[i + 1]);
            cases.push_back(c);
          }
        }
      }
    }
  };
  ForSizes<T>(body);
  std::sort(cases.begin(), cases.end());
  cases.erase(std::unique(cases.begin(), cases.end()), cases.end());
  EmitCases("MulWide", TName<T>(), cases);
#endif
}
// Even lanes subtract, odd lanes add.
template <typename T> HWY_NOINLINE void TestAddSub() {
#if HWY_TARGET != HWY_SCALAR
  const auto in = Tuples<T>(3, E().seed + 7, 100);
  const size_t n = in[0].size();
  HWY_ALIGN T buf[64]; HWY_ALIGN T out[64];
  for (int which = 0; which < 3; ++which) {
    std::vector<Bytes> ev, od;
    auto body = [&](auto d) HWY_ATTR {
      const size_t N = Lanes(d);
      for (size_t at = 0; at < n; at += N) {
        const auto a = LoadBits(d, in[0], at, buf);
        const auto b = LoadBits(d, in[1], at, buf);
        const auto c = LoadBits(d, in[2], at, buf);
        if (which == 0) StoreU(AddSub(a, b), d, out);
        else if (which == 1) StoreU(MulAddSub(a, b, c), d, out);
        else StoreU(MulSubAdd(a, b, c), d, out);
        for (size_t i = 0; i < N && at + i < n; ++i) {
          Bytes x; Put(x, FromBits<T>(in[0][at + i])); Put(x, FromBits<T>(in[1][at + i])); if (which) Put(x, FromBits<T>(in[2][at + i])); Put(x, out[i]);
          (i % 2 ? od : ev).push_back(x);
        }
      }
    };
    ForSizes<T>(body);
    for (auto* v : {&ev, &od}) { std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); }
    EmitCases(which == 0 ? "Sub" : which == 1 ? "MulSub" : "MulAdd", TName<T>(), ev);
    EmitCases(which == 0 ? "Add" : which == 1 ? "MulAdd" : "MulSub", TName<T>(), od);
  }
#endif
}

template <typename T> HWY_NOINLINE void TestDiv() {
  auto in2 = Tuples<T>(2, E().seed + 8, 400);
  const uint64_t m = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T) % 64)) - 1;
  for (size_t i = 0; i < in2[0].size(); ++i) {
    if (in2[1][i] == 0) in2[1][i] = 5;
    if (hwy::IsSigned<T>() && in2[1][i] == m && in2[0][i] == (m >> 1) + 1) in2[1][i] = 3;
  }
  LaneWise<T, T, 2>("Div", in2, [](auto, auto a, auto b) HWY_ATTR { return Div(a, b); });
  LaneWise<T, T, 2>("Mod", in2, [](auto, auto a, auto b) HWY_ATTR { return Mod(a, b); });
}

template <typename T> HWY_NOINLINE void TestClamp() {
  auto in3 = Tuples<T>(3, E().seed + 9, 150);
  for (size_t i = 0; i < in3[0].size(); ++i) {
    T lo = FromBits<T>(in3[1][i]), hi = FromBits<T>(in3[2][i]);
    if (hi < lo) std::swap(in3[1][i], in3[2][i]);
  }
  LaneWise<T, T, 3>("Clamp", in3, [](auto, auto a, auto lo, auto hi) HWY_ATTR { return Clamp(a, lo, hi); });
}

template <typename T> HWY_NOINLINE void TestInt() {
  const size_t R = E().thorough ? 4000 : 300;
  const auto in1 = Tuples<T>(1, E().seed + 1, R);
  const auto in2 = Tuples<T>(2, E().seed + 2, R);
  const auto in3 = Tuples<T>(3, E().seed + 3, E().thorough ? 2000 : 100);
  BIN(Add); BIN(Sub); BIN(Min); BIN(Max); BIN(AbsDiff); BIN(SaturatedAdd); BIN(SaturatedSub); BIN(AverageRound);
  BIN(Mul); BIN(MulHigh); BIN(MinMagnitude); BIN(MaxMagnitude);
  TER(MulAdd); TER(NegMulAdd); TER(MulSub); TER(NegMulSub);
  if constexpr (hwy::IsSigned<T>()) { UN(Neg); UN(Abs); UN(SaturatedAbs); UN(SaturatedNeg); }
  TestDiv<T>();
  TestClamp<T>();
  TestAddSub<T>();
  if constexpr (sizeof(T) < 8) TestMulWide<T>(); else TestMulWide64<T>();
}

HWY_NOINLINE void Test128() {
#if HWY_TARGET != HWY_SCALAR
  using T = uint64_t;
  Rng g(E().seed + 11);
  auto e = Edges<T>();
  std::vector<uint64_t> a, b;
  for (int i = 0; i < 600; ++i) {
    uint64_t x[4];
    for (auto& v : x) v = g.below(3) ? e[g.below(static_cast<uint32_t>(e.size()))] : g.next();
    if (g.below(2)) x[3] = x[1];
    if (g.below(4) == 0) x[2] = x[0];
    a.push_back(x[0]); a.push_back(x[1]); b.push_back(x[2]); b.push_back(x[3]);
  }
  HWY_ALIGN T buf[64]; HWY_ALIGN T out[64];
  std::vector<Bytes> cs[4];
  auto body = [&](auto d) HWY_ATTR {
    if constexpr (MaxLanes(d) >= 2) {
      const size_t N = Lanes(d);
      for (size_t at = 0; at + N <= a.size(); at += N) {
        const auto va = LoadBits(d, a, at, buf);
        const auto vb = LoadBits(d, b, at, buf);
        for (int op = 0; op < 4; ++op) {
          if (op == 0) StoreU(Min128(d, va, vb), d, out);
          if (op == 1) StoreU(Max128(d, va, vb), d, out);
          if (op == 2) StoreU(Min128Upper(d, va, vb), d, out);
          if (op == 3) StoreU(Max128Upper(d, va, vb), d, out);
          for (size_t i = 0; i < N; i += 2) {
            Bytes c; Put(c, a[at + i]); Put(c, a[at + i + 1]); Put(c, b[at + i]); Put(c, b[at + i + 1]); Put(c, out[i]); Put(c, out[i + 1]);
            cs[op].push_back(c);
          }
        }
      }
    }
  };
  ForSizes<T>(body);
  const char* names[4] = {"Min128", "Max128", "Min128Upper", "Max128Upper"};
  for (int op = 0; op < 4; ++op) {
    std::sort(cs[op].begin(), cs[op].end());
    cs[op].erase(std::unique(cs[op].begin(), cs[op].end()), cs[op].end());
    EmitCases(names[op], "u64", cs[op]);
  }
#endif
}

HWY_NOINLINE void TestAll() {
  TestInt<uint8_t>(); TestInt<int8_t>(); TestInt<uint16_t>(); TestInt<int16_t>();
  TestInt<uint32_t>(); TestInt<int32_t>(); TestInt<uint64_t>(); TestInt<int64_t>();
  {
    using T = int16_t;
    auto in2 = Tuples<T>(2, E().seed + 12, 1000);
    for (size_t i = 0; i < in2[0].size(); ++i) if (in2[0][i] == 0x8000 && in2[1][i] == 0x8000) in2[1][i] = 0x8001;
    BIN(MulFixedPoint15);
  }
  Test128();
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
