// P18: packing and unpacking of blocks of every bit width.
#include "simd/common.h"
#include "simd/arena.h"
#include "hwy/contrib/bit_pack/bit_pack-inl.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {
template <typename T> std::string BytesJ(const T* p, size_t n) {
  std::string s = "["; for (size_t i = 0; i < n; ++i) { uint8_t b[8]; memcpy(b, p + i, sizeof(T)); s += i ? ",[" : "["; AppendBytes(s, b, sizeof(T)); s += "]"; } return s + "]";
}
template <typename T> HWY_NOINLINE void One(size_t bits, size_t N, uint64_t ref, int kind, Rng& g, void (*pack)(const T*, T*, T), void (*unpack)(const T*, T*, T)) {
  const size_t B = sizeof(T) * 8, kIn = B * N, kOut = bits * N;
  const uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
  E().cur = "Pack" + std::to_string(B) + " " + TName<T>();
  Window raw = Place(0, kind, kIn * sizeof(T), sizeof(T), g.below(16)), pk = Place(1, kind, kOut * sizeof(T), sizeof(T), g.below(16)), un = Place(2, kind, kIn * sizeof(T), sizeof(T), g.below(16));
  Scramble(raw, g); Scramble(pk, g); Scramble(un, g);
  std::vector<T> v(kIn);
  const uint32_t style = g.below(4); const size_t hot = g.below(static_cast<uint32_t>(kIn));
  for (size_t i = 0; i < kIn; ++i) { uint64_t x = style == 0 ? g.next() : style == 1 ? ~0ull : style == 2 ? (i == hot ? ~0ull : 0) : (i == hot ? 0 : ~0ull); v[i] = static_cast<T>(ref + (x & m)); }
  memcpy(raw.p, v.data(), kIn * sizeof(T));
  auto around = [](const Window& w) { Bytes b(w.begin(), w.p); b.insert(b.end(), w.p + w.len, w.p + w.len + w.post); return b; };
  const Bytes a0 = around(raw), a1 = around(pk), a2 = around(un);
  const bool f1 = Faults([&]() HWY_ATTR { pack(reinterpret_cast<T*>(raw.p), reinterpret_cast<T*>(pk.p), static_cast<T>(ref)); });
  bool kept = !memcmp(raw.p, v.data(), kIn * sizeof(T)) && a0 == around(raw) && a1 == around(pk);
  Bytes packed(pk.p, pk.p + pk.len);
  Scramble(raw, g); Window rest = pk; (void)rest;
  for (size_t i = 0; i < pk.pre; ++i) pk.begin()[i] = static_cast<uint8_t>(g.next() >> 30);
  for (size_t i = 0; i < pk.post; ++i) pk.p[pk.len + i] = static_cast<uint8_t>(g.next() >> 30);
  const bool f2 = Faults([&]() HWY_ATTR { unpack(reinterpret_cast<T*>(pk.p), reinterpret_cast<T*>(un.p), static_cast<T>(ref)); });
  kept = kept && a2 == around(un) && !memcmp(packed.data(), pk.p, pk.len);
  const T rt = static_cast<T>(ref);
  RecX(("Pack" + std::to_string(B)).c_str(), TName<T>(), "\"bits\":" + std::to_string(bits) + ",\"n\":" + std::to_string(N) + ",\"fault\":" + std::to_string(f1 + 2 * f2) + ",\"kept\":" + std::to_string(int(kept)) +
    ",\"ref\":" + BytesJ(&rt, 1) + ",\"raw\":" + BytesJ(v.data(), kIn) + ",\"un\":" + BytesJ(reinterpret_cast<T*>(un.p), kIn));
}
template <class D, size_t kBits, int kMode> struct Fn {   // kMode 1: frame of reference
  using T = TFromD<D>;
  static HWY_NOINLINE void Pack(const T* raw, T* packed, T ref) {
    D d; (void)ref;
    if constexpr (sizeof(T) == 1) Pack8<kBits>().Pack(d, raw, packed);
    if constexpr (sizeof(T) == 2) Pack16<kBits>().Pack(d, raw, packed);
    if constexpr (sizeof(T) == 4) { if constexpr (kMode) Pack32<kBits>().template Pack<D, BlockPackingType::kFoRBitPacked>(d, raw, packed, ref); else Pack32<kBits>().Pack(d, raw, packed); }
    if constexpr (sizeof(T) == 8) { if constexpr (kMode) Pack64<kBits>().template Pack<D, BlockPackingType::kFoRBitPacked>(d, raw, packed, ref); else Pack64<kBits>().Pack(d, raw, packed); }
  }
  static HWY_NOINLINE void Unpack(const T* packed, T* raw, T ref) {
    D d; (void)ref;
    if constexpr (sizeof(T) == 1) Pack8<kBits>().Unpack(d, packed, raw);
    if constexpr (sizeof(T) == 2) Pack16<kBits>().Unpack(d, packed, raw);
    if constexpr (sizeof(T) == 4) { if constexpr (kMode) Pack32<kBits>().template Unpack<D, BlockPackingType::kFoRBitPacked>(d, packed, raw, ref); else Pack32<kBits>().Unpack(d, packed, raw); }
    if constexpr (sizeof(T) == 8) { if constexpr (kMode) Pack64<kBits>().template Unpack<D, BlockPackingType::kFoRBitPacked>(d, packed, raw, ref); else Pack64<kBits>().Unpack(d, packed, raw); }
  }
};
template <class D, size_t kBits, int kMode> void Width(Rng& g) {
  using T = TFromD<D>; using F = Fn<D, kBits, kMode>;
  for (int rep = 0; rep < (E().thorough ? 6 : sizeof(T) == 8 ? 1 : 2); ++rep)
    One<T>(kBits, Lanes(D()), kMode ? g.next() >> g.below(64) : 0, static_cast<int>(g.below(2)), g, &F::Pack, &F::Unpack);
}
template <class D, size_t kFrom, size_t kTo> void Widths(Rng& g) {
  if constexpr (kFrom <= kTo) {
    Width<D, kFrom, 0>(g);
    if constexpr (sizeof(TFromD<D>) >= 4) Width<D, kFrom, 1>(g);
    Widths<D, kFrom + 1, kTo>(g);
  }
}
template <typename T, size_t kFrom, size_t kTo> HWY_NOINLINE void Type() {
  Rng g(E().seed + sizeof(T) + kFrom);
  Widths<ScalableTag<T>, kFrom, kTo>(g);
#if HWY_TARGET != HWY_SCALAR
  if constexpr (sizeof(T) <= 2) { Widths<CappedTag<T, 8 / sizeof(T)>, kFrom, kTo>(g); if constexpr (HWY_LANES(T) * sizeof(T) > 16) Widths<CappedTag<T, 16 / sizeof(T)>, kFrom, kTo>(g); }
#endif
}
void Main() {
  InstallFault();
#if VPART == 0 && HWY_TARGET == HWY_SCALAR   // Pack8 needs 16-bit shifts of repartitioned vectors, which SCALAR lacks
#elif VPART == 0
  Type<uint8_t, 1, 8>();
#elif VPART == 1
  Type<uint16_t, 1, 16>();
#elif VPART == 2
  Type<uint32_t, 1, 32>();
#elif VPART == 3
  Type<uint64_t, 1, 32>();
#else
  Type<uint64_t, 33, 64>();
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::Main)
