// P24: logical operations, shifts, rotates, bit counts.
#include "simd/common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
#define UN(op) LaneWise<T, T, 1>(#op, in1, [](auto, auto a) HWY_ATTR { return op(a); })
#define BIN(op) LaneWise<T, T, 2>(#op, in2, [](auto, auto a, auto b) HWY_ATTR { return op(a, b); })
#define TER(op) LaneWise<T, T, 3>(#op, in3, [](auto, auto a, auto b, auto c) HWY_ATTR { return op(a, b, c); })

template <typename T> void RecShift(const char* op, uint64_t a, int s, T r) {
  Bytes c; Put(c, FromBits<T>(a)); c.push_back(static_cast<uint8_t>(s)); Put(c, r);
  Rec(op, TName<T>(), c);
}
// One compile-time amount, one vector size.
template <int kS, class D> HWY_NOINLINE void ConstShift(D d, const std::vector<uint64_t>& in) {
  using T = TFromD<D>;
  HWY_ALIGN T buf[64]; HWY_ALIGN T out[64];
  const size_t N = Lanes(d);
  for (size_t at = 0; at < in.size(); at += N) {
    const auto a = LoadBits(d, in, at, buf);
    auto rec = [&](const char* op, const auto& v) HWY_ATTR {
      StoreU(v, d, out);
      for (size_t i = 0; i < N && at + i < in.size(); ++i) RecShift<T>(op, in[at + i], kS, out[i]);
    };
    rec("ShiftLeft", ShiftLeft<kS>(a));
    rec("ShiftRight", ShiftRight<kS>(a));
    rec("RoundingShiftRight", RoundingShiftRight<kS>(a));
    rec("RotateLeft", RotateLeft<kS>(a));
    rec("RotateRight", RotateRight<kS>(a));
  }
}
template <class D, int... kS> HWY_INLINE void ConstShifts(D d, const std::vector<uint64_t>& in, std::integer_sequence<int, kS...>) {
  (ConstShift<kS>(d, in), ...);
}
template <typename T> HWY_NOINLINE void TestConstShift() {
  E().cur = std::string("ConstShift ") + TName<T>();
  std::vector<uint64_t> in = Edges<T>();
  Rng g(E().seed + 20 + sizeof(T));
  while (in.size() % 64 || in.size() < (E().thorough ? 256 : 64)) in.push_back(RandomBits<T>(g));
  ConstShifts(ScalableTag<T>(), in, std::make_integer_sequence<int, 8 * sizeof(T)>());
#if HWY_TARGET != HWY_SCALAR
  if constexpr (HWY_LANES(T) * sizeof(T) >= 32) ConstShifts(CappedTag<T, HWY_LANES(T) / 2>(), in, std::make_integer_sequence<int, 8 * sizeof(T)>());
  if constexpr (HWY_LANES(T) * sizeof(T) >= 64) ConstShifts(CappedTag<T, HWY_LANES(T) / 4>(), in, std::make_integer_sequence<int, 8 * sizeof(T)>());
#endif
}
template <typename T> HWY_NOINLINE void TestSame() {
  E().cur = std::string("ShiftSame ") + TName<T>();
  std::vector<uint64_t> in = Edges<T>();
  Rng g(E().seed + 30 + sizeof(T));
  while (in.size() < (E().thorough ? 256 : 64)) in.push_back(RandomBits<T>(g));
  auto body = [&](auto d) HWY_ATTR {
    HWY_ALIGN T buf[64]; HWY_ALIGN T out[64];
    const size_t N = Lanes(d);
    for (int s = 0; s < static_cast<int>(8 * sizeof(T)); ++s)
      for (size_t at = 0; at < in.size(); at += N) {
        const auto a = LoadBits(d, in, at, buf);
        auto rec = [&](const char* op, const auto& v) HWY_ATTR {
          StoreU(v, d, out);
          for (size_t i = 0; i < N && at + i < in.size(); ++i) RecShift<T>(op, in[at + i], s, out[i]);
        };
        rec("ShiftLeft", ShiftLeftSame(a, s));
        rec("ShiftRight", ShiftRightSame(a, s));
        rec("RoundingShiftRight", RoundingShiftRightSame(a, s));
        rec("RotateLeft", RotateLeftSame(a, s));
        rec("RotateRight", RotateRightSame(a, s));
      }
  };
  ForSizes<T>(body);
}
template <typename T> HWY_NOINLINE void TestVar() {
  auto in2 = Tuples<T>(2, E().seed + 40, E().thorough ? 3000 : 500);
  std::vector<uint64_t> e = Edges<T>();
  for (uint64_t a : e) for (uint64_t s = 0; s < 8 * sizeof(T); ++s) { in2[0].push_back(a); in2[1].push_back(s); }
  // Rotates accept any amount (taken modulo the lane width).
  LaneWise<T, T, 2>("Rol", in2, [](auto, auto a, auto b) HWY_ATTR { return Rol(a, b); });
  LaneWise<T, T, 2>("Ror", in2, [](auto, auto a, auto b) HWY_ATTR { return Ror(a, b); });
  for (auto& s : in2[1]) s &= 8 * sizeof(T) - 1;
  LaneWise<T, T, 2>("Shl", in2, [](auto, auto a, auto b) HWY_ATTR { return Shl(a, b); });
  LaneWise<T, T, 2>("Shr", in2, [](auto, auto a, auto b) HWY_ATTR { return Shr(a, b); });
  LaneWise<T, T, 2>("RoundingShr", in2, [](auto, auto a, auto b) HWY_ATTR { return RoundingShr(a, b); });
#if HWY_TARGET != HWY_SCALAR && HWY_TARGET != HWY_EMU128
  LaneWise<T, T, 2>("Shl", in2, [](auto, auto a, auto b) HWY_ATTR { return a << b; });
  LaneWise<T, T, 2>("Shr", in2, [](auto, auto a, auto b) HWY_ATTR { return a >> b; });
#endif
}

template <typename T> HWY_NOINLINE void TestLogic() {
  const auto in1 = Tuples<T>(1, E().seed + 1, 100);
  const auto in2 = Tuples<T>(2, E().seed + 2, E().thorough ? 2000 : 100);
  const auto in3 = Tuples<T>(3, E().seed + 3, E().thorough ? 2000 : 100);
  BIN(And); BIN(Or); BIN(Xor); BIN(AndNot); UN(Not);
  TER(Xor3); TER(Or3); TER(OrAnd); TER(BitwiseIfThenElse);
  if constexpr (!hwy::IsFloat<T>()) {
    LaneWise<T, T, 2>("And", in2, [](auto, auto a, auto b) HWY_ATTR { return a & b; });
    LaneWise<T, T, 2>("Or", in2, [](auto, auto a, auto b) HWY_ATTR { return a | b; });
    LaneWise<T, T, 2>("Xor", in2, [](auto, auto a, auto b) HWY_ATTR { return a ^ b; });
  }
}
template <typename T> HWY_NOINLINE void TestSigned() {
  auto in1 = Tuples<T>(1, E().seed + 11, 200);
  auto in2 = Tuples<T>(2, E().seed + 12, E().thorough ? 2000 : 200);
  auto in3 = Tuples<T>(3, E().seed + 13, E().thorough ? 2000 : 200);
  if constexpr (hwy::IsFloat<T>()) {  // -0 and NaN operands are implementation-defined here
    for (auto* v : {&in1[0], &in2[0], &in3[0]}) for (auto& x : *v) { const T f = FromBits<T>(x); if (!(f == f) || f == T(0)) x = 0; }
    for (auto& x : in2[1]) { const T f = FromBits<T>(x); if (!(f == f)) x = 0; }
  } else {
    UN(BroadcastSignBit);
  }
  UN(ZeroIfNegative);
  BIN(IfNegativeThenElseZero); BIN(IfNegativeThenZeroElse);
  BIN(IfNegativeThenNegOrUndefIfZero);
  TER(IfNegativeThenElse);
}
template <typename T> HWY_NOINLINE void TestCounts() {
  const auto in1 = Tuples<T>(1, E().seed + 21, E().thorough ? 4000 : 400);
  if constexpr (!hwy::IsSigned<T>()) UN(PopulationCount);
  UN(LeadingZeroCount); UN(TrailingZeroCount); UN(HighestSetBitIndex); UN(ReverseBits);
  if constexpr (sizeof(T) > 1) UN(ReverseLaneBytes);
}

template <typename T> HWY_NOINLINE void TestAllBits() {
  E().cur = "AllBits";
  Rng g(E().seed + 50);
  auto body = [&](auto d) HWY_ATTR {
    HWY_ALIGN T buf[64];
    uint8_t* b = reinterpret_cast<uint8_t*>(buf);
    const size_t n = Lanes(d) * sizeof(T);
    for (int rep = 0; rep < 60; ++rep) {
      memset(b, rep & 1 ? 255 : 0, n);
      if (rep >= 2) { const int bits = 1 + static_cast<int>(g.below(2)); for (int k = 0; k < bits; ++k) { const size_t at = g.below(static_cast<uint32_t>(8 * n)); b[at / 8] = static_cast<uint8_t>(b[at / 8] ^ (1 << (at % 8))); } }
      if (rep < 2 || rep > 52) {}
      const auto v = LoadU(d, buf);
      Bytes c(b, b + n);
      c.push_back(AllBits1(d, v)); c.push_back(AllBits0(d, v));
      Rec("AllBits", TName<T>(), c);
    }
  };
  ForAllSizes<T>(body);
}

template <typename T> HWY_NOINLINE void TestByteIdx64() {
  Rng g(E().seed + 60);
  std::vector<uint64_t> a, b;
  auto e = Edges<uint64_t>();
  for (int i = 0; i < (E().thorough ? 2000 : 300); ++i) {
    a.push_back(g.below(2) ? e[g.below(static_cast<uint32_t>(e.size()))] : g.next());
    uint64_t idx = 0;
    for (int j = 0; j < 8; ++j) idx |= static_cast<uint64_t>(g.below(64)) << (8 * j);
    b.push_back(idx);
  }
  for (uint64_t s = 0; s < 64; ++s) { a.push_back(0x123456789ABCDEF0ull); b.push_back(s * 0x0101010101010101ull); }
  LaneWise<T, T, 2>("BitShuffle", {a, b}, [](auto d, auto v, auto i) HWY_ATTR { return BitShuffle(v, BitCast(Repartition<uint8_t, decltype(d)>(), i)); });
  LaneWise<T, T, 2>("MultiRotateRight", {a, b}, [](auto d, auto v, auto i) HWY_ATTR { return MultiRotateRight(v, BitCast(Repartition<uint8_t, decltype(d)>(), i)); });
  LaneWise<T, T, 2>("BitShuffle", {a, b}, [](auto d, auto v, auto i) HWY_ATTR { return BitShuffle(v, BitCast(Repartition<int8_t, decltype(d)>(), i)); });
  LaneWise<T, T, 2>("MultiRotateRight", {a, b}, [](auto d, auto v, auto i) HWY_ATTR { return MultiRotateRight(v, BitCast(Repartition<int8_t, decltype(d)>(), i)); });
}

template <typename T> HWY_NOINLINE void TestInt() {
  TestConstShift<T>(); TestSame<T>(); TestVar<T>(); TestLogic<T>(); TestCounts<T>(); TestAllBits<T>();
  if constexpr (hwy::IsSigned<T>()) TestSigned<T>();
}
HWY_NOINLINE void TestAll() {
  TestInt<uint8_t>(); TestInt<int8_t>(); TestInt<uint16_t>(); TestInt<int16_t>();
  TestInt<uint32_t>(); TestInt<int32_t>(); TestInt<uint64_t>(); TestInt<int64_t>();
  TestLogic<float>(); TestSigned<float>();
#if HWY_HAVE_FLOAT64
  TestLogic<double>(); TestSigned<double>();
#endif
#if HWY_TARGET != HWY_SCALAR
  TestByteIdx64<uint64_t>(); TestByteIdx64<int64_t>();
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
