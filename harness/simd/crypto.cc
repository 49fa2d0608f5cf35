// P38: AES rounds, key generation assist and carry-less multiplication.
#include <utility>
#include "simd/convert.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
#if HWY_TARGET != HWY_SCALAR
size_t Reps() { return E().thorough ? 1500 : 90; }
template <class D> std::string XC(D d, int k = 0) { return "\"n\":" + std::to_string(Lanes(d) * sizeof(TFromD<D>)) + ",\"k\":" + std::to_string(k); }
template <typename T, class F> void ForBlocks(const F& f) {
  f(CappedTag<T, 16 / sizeof(T)>());
#if HWY_MAX_BYTES >= 32
  f(CappedTag<T, 32 / sizeof(T)>());
#endif
#if HWY_MAX_BYTES >= 64
  f(CappedTag<T, 64 / sizeof(T)>());
#endif
}
// Every byte value in every position of the block, single bits, random blocks.
void State(Bytes& b, Rng& g, size_t n, size_t r, bool dense) {
  for (size_t i = 0; i < n; ++i) {
    uint8_t v = static_cast<uint8_t>(g.next() >> 40);
    if (dense) v = static_cast<uint8_t>(r + 37 * i);
    else if (r == 0) v = 0;
    else if (r == 1) v = 255;
    else if (r < 18) v = (i % 16) == r - 2 ? static_cast<uint8_t>(1 + i / 16) : 0;
    b.push_back(v);
  }
}
void Aes() {
  ForBlocks<uint8_t>([](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    Rng g(E().seed * 77 + N);
    for (size_t r = 0; r < 256 + Reps(); ++r) {
      Bytes in; State(in, g, N, r < 256 ? r : r - 256, r < 256);
      Bytes key = in; for (size_t i = 0; i < N; ++i) key[i] = r % 3 == 0 ? 0 : static_cast<uint8_t>(g.next() >> 33);
      in.insert(in.end(), key.begin(), key.end());
      const auto s = InVec(d, in.data()); const auto k = InVec(d, in.data() + N);
      auto rec = [&](const char* op, VFromD<decltype(d)> v) HWY_ATTR { Bytes c = in; OutVec(d, v, c); Rec(op, "u8", c, XC(d)); };
      E().cur = "AES u8";
      rec("AESRound", AESRound(s, k)); rec("AESLastRound", AESLastRound(s, k));
      rec("AESRoundInv", AESRoundInv(s, k)); rec("AESLastRoundInv", AESLastRoundInv(s, k));
      rec("AESInvMixColumns", AESInvMixColumns(s));
    }
  });
}
template <int kRcon, class D> HWY_NOINLINE void KeyGen1(D d, Rng& g) {
  const size_t N = Lanes(d);
  for (size_t r = 0; r < (E().thorough ? 20 : 2); ++r) {
    Bytes in; State(in, g, N, static_cast<size_t>(kRcon) + 113 * r, true);
    for (size_t i = 0; i < N; ++i) in.push_back(0);
    OutVec(d, AESKeyGenAssist<static_cast<uint8_t>(kRcon)>(InVec(d, in.data())), in);
    Rec("AESKeyGenAssist", "u8", in, XC(d, kRcon));
  }
}
template <class D, int... I> void KeyGenAll(D d, std::integer_sequence<int, I...>) {
  Rng g(E().seed * 5 + 1); E().cur = "AESKeyGenAssist u8";
  (KeyGen1<I>(d, g), ...);
}
void Cl() {
  ForBlocks<uint64_t>([](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    Rng g(E().seed * 7 + N);
    const std::vector<uint64_t> e = Edges<uint64_t>();
    for (size_t r = 0; r < 64 + e.size() * 4 + 4 * Reps(); ++r) {
      Bytes in;
      for (size_t i = 0; i < 2 * N; ++i) Put(in, r < 64 ? (i < N ? 1ull << ((r + i * 7) % 64) : g.next() | 1ull << 63 | 1) : r < 64 + e.size() * 4 ? e[g.below(static_cast<uint32_t>(e.size()))] : RandomBits<uint64_t>(g));
      const auto a = InVec(d, in.data()); const auto b = InVec(d, in.data() + N * 8);
      E().cur = "CLMul u64";
      { Bytes c = in; OutVec(d, CLMulLower(a, b), c); Rec("CLMulLower", "u64", c, XC(d)); }
      { Bytes c = in; OutVec(d, CLMulUpper(a, b), c); Rec("CLMulUpper", "u64", c, XC(d)); }
    }
  });
}
#endif
void RunAll() {
#if HWY_TARGET != HWY_SCALAR
#if VPART == 0
  Aes(); Cl();
#else
  ForBlocks<uint8_t>([](auto d) HWY_ATTR { KeyGenAll(d, std::make_integer_sequence<int, 256>()); });
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::RunAll)
