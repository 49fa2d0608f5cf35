// P28: lane movement within and across vectors.
#include <utility>
#include "simd/common.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace vs_ {

// Calls f(std::integral_constant<size_t, i>) for i in [0, kN).
template <class F, size_t... kI> HWY_INLINE void ForIdxImpl(const F& f, std::index_sequence<kI...>) { (f(std::integral_constant<size_t, kI>()), ...); }
template <size_t kN, class F> HWY_INLINE void ForIdx(const F& f) { ForIdxImpl(f, std::make_index_sequence<kN>()); }

inline Bytes RandBytes(size_t n, Rng& g) { Bytes b(n); for (auto& x : b) x = static_cast<uint8_t>(g.next() >> 24); return b; }
// The vector with the given bytes; lanes beyond a partial vector hold garbage.
template <class D> HWY_NOINLINE VFromD<D> InVec(D d, const uint8_t* p) {
  using T = TFromD<D>;
  HWY_ALIGN T buf[128];
#if HWY_TARGET != HWY_SCALAR
  const ScalableTag<T> df;
  memset(buf, 0xC7, sizeof buf);
  memcpy(buf, p, Lanes(d) * sizeof(T));
  return ResizeBitCast(d, LoadU(df, buf));
#else
  memcpy(buf, p, sizeof(T));
  return LoadU(d, buf);
#endif
}
template <class D> HWY_NOINLINE void OutVec(D d, VFromD<D> v, Bytes& c) {
  HWY_ALIGN TFromD<D> buf[128];
  StoreU(v, d, buf);
  const uint8_t* b = reinterpret_cast<const uint8_t*>(buf);
  c.insert(c.end(), b, b + Lanes(d) * sizeof(TFromD<D>));
}
template <class D> HWY_NOINLINE MFromD<D> InMask(D d, const Bytes& bools) {
  using TU = MakeUnsigned<TFromD<D>>;
  const Rebind<TU, D> du;
  HWY_ALIGN TU buf[64];
  for (size_t i = 0; i < Lanes(d); ++i) buf[i] = bools[i] ? static_cast<TU>(~TU{0}) : TU{0};
  return MaskFromVec(BitCast(d, LoadU(du, buf)));
}

template <class D> struct Swz {
  using T = TFromD<D>;
  using V = VFromD<D>;
  static constexpr size_t N = MaxLanes(D());
  static constexpr size_t VB = N * sizeof(T);
  static constexpr size_t BL = VB < 16 ? N : 16 / sizeof(T);   // lanes per block
  static constexpr size_t NB = N / BL;
  static constexpr bool kSpecial = hwy::IsSpecialFloat<T>();
  static constexpr bool kInt = !hwy::IsSpecialFloat<T>() && !hwy::IsFloat<T>();
  D d; Rng g; std::string t;
  Swz() : g(E().seed + 300 + sizeof(T) * 10 + N), t(TName<T>()) {}
  std::string X(size_t k, bool has) const { std::string s = "\"n\":" + std::to_string(N); return has ? s + ",\"k\":" + std::to_string(k) : s; }
  // f(operand vectors) -> vector of DO lanes.
  template <class DO, class F> HWY_NOINLINE void One(const char* op, DO dout, const F& f, size_t k = 0, bool hask = false) {
    E().cur = std::string(op) + " " + t;
    Bytes c = RandBytes(VB, g);
    const V a = InVec(d, c.data());
    OutVec(dout, f(a), c);
    Rec(op, t.c_str(), c, X(k, hask));
  }
  template <class DO, class F> HWY_NOINLINE void Two(const char* op, DO dout, const F& f, size_t k = 0, bool hask = false) {
    E().cur = std::string(op) + " " + t;
    Bytes c = RandBytes(2 * VB, g);
    const V a = InVec(d, c.data()), b = InVec(d, c.data() + VB);
    OutVec(dout, f(a, b), c);
    Rec(op, t.c_str(), c, X(k, hask));
  }
#define ONE(OP, CALL) One(#OP, d, [&](V a) HWY_ATTR { return CALL; })
#define TWO(OP, CALL) Two(#OP, d, [&](V a, V b) HWY_ATTR { return CALL; })
#define ONEK(OP, KN, CALL) ForIdx<KN>([&](auto ic) HWY_ATTR { constexpr int kI = static_cast<int>(decltype(ic)::value); One(#OP, d, [&](V a) HWY_ATTR { return CALL; }, kI, true); })
#define TWOK(OP, KN, CALL) ForIdx<KN>([&](auto ic) HWY_ATTR { constexpr int kI = static_cast<int>(decltype(ic)::value); Two(#OP, d, [&](V a, V b) HWY_ATTR { return CALL; }, kI, true); })
#define TWOK1(OP, KN, CALL) ForIdx<(KN) - 1>([&](auto ic) HWY_ATTR { constexpr int kI = static_cast<int>(decltype(ic)::value) + 1; Two(#OP, d, [&](V a, V b) HWY_ATTR { return CALL; }, kI, true); })

  HWY_NOINLINE void Create() {
    { Bytes c; OutVec(d, Zero(d), c); Rec("Zero", t.c_str(), c, X(0, false)); }
    for (int r = 0; r < 4; ++r) { Bytes c = RandBytes(sizeof(T), g); T v; memcpy(&v, c.data(), sizeof(T)); if (!kInt && r == 0) { memset(c.data(), 0, sizeof(T)); memset(&v, 0, sizeof(T)); }
      OutVec(d, Set(d, v), c); Rec("Set", t.c_str(), c, X(0, false)); }
    { Bytes c; c.push_back(static_cast<uint8_t>(Lanes(d))); c.push_back(static_cast<uint8_t>(MaxLanes(d))); c.push_back(static_cast<uint8_t>(Blocks(d))); c.push_back(static_cast<uint8_t>(d.MaxBlocks())); c.push_back(static_cast<uint8_t>(d.MaxBytes()));
      Rec("Counts", t.c_str(), c, X(0, false)); }
    if constexpr (!kSpecial) { Bytes c; OutVec(d, SignBit(d), c); Rec("SignBit", t.c_str(), c, X(0, false)); }
    if constexpr (kInt) {
      for (int r = 0; r < 6; ++r) { const T v = FromBits<T>(r < 2 ? g.below(8) : RandomBits<T>(g)); Bytes c; Put(c, v); OutVec(d, Iota(d, v), c); Rec("Iota", t.c_str(), c, X(0, false)); }
    } else if constexpr (!kSpecial) {
      for (uint16_t v : {uint16_t{0}, uint16_t{1}, uint16_t{13}, uint16_t{250}}) {
        Bytes c; Put(c, v);
        HWY_ALIGN T buf[64]; StoreU(Iota(d, v), d, buf);
        for (size_t i = 0; i < N; ++i) { const double x = static_cast<double>(buf[i]); const uint16_t u = (x >= 0 && x < 60000 && x == static_cast<double>(static_cast<uint16_t>(x))) ? static_cast<uint16_t>(x) : uint16_t{65535}; Put(c, u); }
        Rec("IotaFloat", t.c_str(), c, X(0, false));
      }
    }
    if constexpr (!kSpecial) for (int r = 0; r < 3; ++r) {
      Bytes c(N); for (auto& x : c) x = g.below(2) != 0;
      const auto m = InMask(d, c);
      Bytes no = RandBytes(VB, g), v = RandBytes(sizeof(T), g);
      T val; memcpy(&val, v.data(), sizeof(T));
      Bytes c2 = c; c2.insert(c2.end(), no.begin(), no.end()); c2.insert(c2.end(), v.begin(), v.end());
      OutVec(d, MaskedSetOr(InVec(d, no.data()), m, val), c2); Rec("MaskedSetOr", t.c_str(), c2, X(0, false));
      c2 = c; c2.insert(c2.end(), VB, 0); c2.insert(c2.end(), v.begin(), v.end());
      OutVec(d, MaskedSet(d, m, val), c2); Rec("MaskedSetOr", t.c_str(), c2, X(0, false));
    }
    if constexpr (!kSpecial) {
      Bytes c = RandBytes(16, g); T q[16 / sizeof(T)]; memcpy(q, c.data(), 16);
      if constexpr (sizeof(T) == 1) OutVec(d, Dup128VecFromValues(d, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15]), c);
      else if constexpr (sizeof(T) == 2) OutVec(d, Dup128VecFromValues(d, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]), c);
      else if constexpr (sizeof(T) == 4) OutVec(d, Dup128VecFromValues(d, q[0], q[1], q[2], q[3]), c);
      else OutVec(d, Dup128VecFromValues(d, q[0], q[1]), c);
      Rec("Dup128VecFromValues", t.c_str(), c, X(0, false));
    }
    // Single lanes.
    for (size_t i = 0; i < N; ++i) {
      Bytes c = RandBytes(VB, g), e;
      e = c; { const V a = InVec(d, e.data()); const T x = ExtractLane(a, i); Put(e, x); } Rec("ExtractLane", t.c_str(), e, X(i, true));
      if (i == 0) { e = c; const V a = InVec(d, e.data()); const T x = GetLane(a); Put(e, x); Rec("ExtractLane", t.c_str(), e, X(0, true)); }
      Bytes v = RandBytes(sizeof(T), g); T val; memcpy(&val, v.data(), sizeof(T));
      e = c; e.insert(e.end(), v.begin(), v.end()); { const V a = InVec(d, c.data()); OutVec(d, InsertLane(a, i, val), e); } Rec("InsertLane", t.c_str(), e, X(i, true));
    }
    // Tuples.
    One("Copy", d, [&](V a) HWY_ATTR { return Get2<1>(Create2(d, Zero(d), a)); });
    One("Copy", d, [&](V a) HWY_ATTR { return Get3<1>(Create3(d, Zero(d), a, Zero(d))); });
    One("Copy", d, [&](V a) HWY_ATTR { return Get4<3>(Create4(d, Zero(d), Zero(d), Zero(d), a)); });
    One("Copy", d, [&](V a) HWY_ATTR { return Get4<2>(Set4<2>(Create4(d, Zero(d), Zero(d), Zero(d), Zero(d)), a)); });
    One("Copy", d, [&](V a) HWY_ATTR { return Get3<0>(Set3<0>(Set3<2>(Create3(d, Zero(d), Zero(d), Zero(d)), Zero(d)), a)); });
    One("Copy", d, [&](V a) HWY_ATTR { return Get2<0>(Set2<1>(Create2(d, a, a), Zero(d))); });
  }

  HWY_NOINLINE void Halves() {
#if HWY_TARGET != HWY_SCALAR
    if constexpr (N >= 2) {
      const Half<D> dh;
      One("LowerHalf", dh, [&](V a) HWY_ATTR { return LowerHalf(dh, a); });
      One("LowerHalf", dh, [&](V a) HWY_ATTR { return LowerHalf(a); });
      One("UpperHalf", dh, [&](V a) HWY_ATTR { return UpperHalf(dh, a); });
      TWO(ConcatLowerLower, ConcatLowerLower(d, a, b)); TWO(ConcatUpperUpper, ConcatUpperUpper(d, a, b));
      TWO(ConcatLowerUpper, ConcatLowerUpper(d, a, b)); TWO(ConcatUpperLower, ConcatUpperLower(d, a, b));
      if constexpr (!kSpecial) {
        TWO(ConcatOdd, ConcatOdd(d, a, b)); TWO(ConcatEven, ConcatEven(d, a, b));
      }
      TWO(InterleaveLower, InterleaveLower(a, b)); TWO(InterleaveLower, InterleaveLower(d, a, b)); TWO(InterleaveUpper, InterleaveUpper(d, a, b));
      if constexpr (!kSpecial) {
        TWO(InterleaveWholeLower, InterleaveWholeLower(a, b)); TWO(InterleaveWholeLower, InterleaveWholeLower(d, a, b)); TWO(InterleaveWholeUpper, InterleaveWholeUpper(d, a, b));
        TWO(InterleaveEven, InterleaveEven(a, b)); TWO(InterleaveEven, InterleaveEven(d, a, b)); TWO(InterleaveOdd, InterleaveOdd(d, a, b));
        TWO(OddEven, OddEven(a, b)); ONE(DupEven, DupEven(a)); ONE(DupOdd, DupOdd(a));
      }
      if constexpr (kInt && sizeof(T) < 8) {
        const RepartitionToWide<D> dw;
        Two("InterleaveLower", dw, [&](V a, V b) HWY_ATTR { return ZipLower(a, b); });
        Two("InterleaveLower", dw, [&](V a, V b) HWY_ATTR { return ZipLower(dw, a, b); });
        Two("InterleaveUpper", dw, [&](V a, V b) HWY_ATTR { return ZipUpper(dw, a, b); });
      }
    }
    if constexpr (VB < HWY_MAX_BYTES && VB * 2 <= HWY_LANES(uint8_t)) {
      const Twice<D> d2;
      One("ZeroExtendVector", d2, [&](V a) HWY_ATTR { return ZeroExtendVector(d2, a); });
      if constexpr (!kSpecial) Two("Combine", d2, [&](V a, V b) HWY_ATTR { return Combine(d2, a, b); });
    }
#else
    if constexpr (kInt && sizeof(T) < 8) {
      Bytes c = RandBytes(2 * sizeof(T), g); const V a = InVec(d, c.data()), b = InVec(d, c.data() + sizeof(T));
      const RepartitionToWide<D> dw; OutVec(dw, ZipLower(a, b), c); Rec("Zip", t.c_str(), c, X(0, false));
    }
#endif
  }
  HWY_NOINLINE void Blockwise() {
    ONEK(Broadcast, BL, Broadcast<kI>(a));
#if HWY_TARGET != HWY_SCALAR
    if constexpr (kInt) {
      if constexpr (sizeof(T) == 1 || sizeof(T) == 8 || VB == 16) {
        ONEK(ShiftLeftBytes, 15, ShiftLeftBytes<kI>(a)); ONEK(ShiftLeftBytes, 15, ShiftLeftBytes<kI>(d, a)); ONEK(ShiftRightBytes, 15, ShiftRightBytes<kI>(d, a));
      }
      if constexpr (N >= 2 && (sizeof(T) == 1 || sizeof(T) == 4)) TWOK1(CombineShiftRightBytes, (VB < 16 ? VB : 16), CombineShiftRightBytes<kI>(d, a, b));
    }
    if constexpr (!kSpecial) {
      ONEK(ShiftLeftLanes, BL, ShiftLeftLanes<kI>(a)); ONEK(ShiftLeftLanes, BL, ShiftLeftLanes<kI>(d, a)); ONEK(ShiftRightLanes, BL, ShiftRightLanes<kI>(d, a));
      if constexpr (N >= 2) TWOK1(CombineShiftRightLanes, BL, CombineShiftRightLanes<kI>(d, a, b));
    }
    if constexpr (sizeof(T) == 4 && VB >= 16) {
      ONE(Shuffle1032, Shuffle1032(a)); ONE(Shuffle0321, Shuffle0321(a)); ONE(Shuffle2103, Shuffle2103(a)); ONE(Shuffle2301, Shuffle2301(a)); ONE(Shuffle0123, Shuffle0123(a));
    }
    if constexpr (sizeof(T) == 8 && VB >= 16) ONE(Shuffle01, Shuffle01(a));
#endif
  }
  HWY_NOINLINE void Across() {
    ONE(Reverse, Reverse(d, a));
    if constexpr (!kSpecial) {
#if HWY_TARGET != HWY_SCALAR
      if constexpr (N >= 2) One("ReverseN", d, [&](V a) HWY_ATTR { return Reverse2(d, a); }, 2, true);
      if constexpr (N >= 4) One("ReverseN", d, [&](V a) HWY_ATTR { return Reverse4(d, a); }, 4, true);
      if constexpr (N >= 8) One("ReverseN", d, [&](V a) HWY_ATTR { return Reverse8(d, a); }, 8, true);
#endif
      if constexpr (VB >= 16 || N == 1) ONE(ReverseBlocks, ReverseBlocks(d, a));
      TWO(OddEvenBlocks, OddEvenBlocks(a, b));
#if HWY_TARGET != HWY_SCALAR
      if constexpr (VB > 16) { ONE(SwapAdjacentBlocks, SwapAdjacentBlocks(a)); TWO(InterleaveEvenBlocks, InterleaveEvenBlocks(d, a, b)); TWO(InterleaveOddBlocks, InterleaveOddBlocks(d, a, b)); }
#endif
      ONEK(BroadcastLane, N, BroadcastLane<kI>(a));
      ONEK(BroadcastBlock, NB, BroadcastBlock<kI>(a));
      const BlockDFromD<D> db;
      ForIdx<NB>([&](auto ic) HWY_ATTR {
        constexpr int kI = static_cast<int>(decltype(ic)::value);
        One("ExtractBlock", db, [&](V a) HWY_ATTR { return ExtractBlock<kI>(a); }, kI, true);
        Bytes c = RandBytes(VB + BL * sizeof(T), g);
        const V a = InVec(d, c.data()); const auto blk = InVec(db, c.data() + VB);
        OutVec(d, InsertBlock<kI>(a, blk), c); Rec("InsertBlock", t.c_str(), c, X(kI, true));
        One("SlideUpLanes", d, [&](V a) HWY_ATTR { return SlideUpBlocks<kI>(d, a); }, kI * BL, true);
        One("SlideDownLanes", d, [&](V a) HWY_ATTR { return SlideDownBlocks<kI>(d, a); }, kI * BL, true);
      });
      for (size_t k = 0; k < N; ++k) {
        One("SlideUpLanes", d, [&](V a) HWY_ATTR { return SlideUpLanes(d, a, k); }, k, true);
        One("SlideDownLanes", d, [&](V a) HWY_ATTR { return SlideDownLanes(d, a, k); }, k, true);
      }
      // Constant counts take separate paths.
      One("SlideUpLanes", d, [&](V a) HWY_ATTR { return Slide1Up(d, a); }, 1, true);
      One("SlideDownLanes", d, [&](V a) HWY_ATTR { return Slide1Down(d, a); }, 1, true);
      Tables();
    }
  }
  HWY_NOINLINE void Tables() {
    using TI = MakeSigned<T>; using TU = MakeUnsigned<T>;
    const Rebind<TI, D> di; const Rebind<TU, D> du;
    for (int r = 0; r < (E().thorough ? 60 : 6); ++r) {
      for (size_t tb = 1; tb <= 2; ++tb) {
        const size_t lim = std::min<size_t>(tb * N, 256);
        Bytes c(N); HWY_ALIGN TI ii[64]; HWY_ALIGN TU iu[64];
        for (size_t i = 0; i < N; ++i) {
          const size_t x = r == 0 ? (N - 1 - i) + (tb - 1) * N * (i & 1) : r == 1 ? i + (tb - 1) * N : r == 2 ? g.below(4) % lim : r == 3 ? (lim - 1 - g.below(4) % lim) : g.below(static_cast<uint32_t>(lim));
          c[i] = static_cast<uint8_t>(x); ii[i] = static_cast<TI>(x); iu[i] = static_cast<TU>(x);
        }
        const size_t off = c.size();
        { Bytes v = RandBytes(tb * VB, g); c.insert(c.end(), v.begin(), v.end()); }
        const V a = InVec(d, c.data() + off);
        const V b = InVec(d, c.data() + off + (tb - 1) * VB);
        auto out = [&](V v) HWY_ATTR { Bytes e = c; OutVec(d, v, e); Rec(tb == 1 ? "TableLookupLanes" : "TwoTablesLookupLanes", t.c_str(), e, X(0, false)); };
        if (tb == 1) {
          out(TableLookupLanes(a, SetTableIndices(d, ii))); out(TableLookupLanes(a, SetTableIndices(d, iu)));
          out(TableLookupLanes(a, IndicesFromVec(d, LoadU(di, ii)))); out(TableLookupLanes(a, IndicesFromVec(d, LoadU(du, iu))));
        } else {
          out(TwoTablesLookupLanes(d, a, b, SetTableIndices(d, iu))); out(TwoTablesLookupLanes(d, a, b, IndicesFromVec(d, LoadU(di, ii))));
          out(TwoTablesLookupLanes(a, b, IndicesFromVec(d, LoadU(du, iu))));
        }
      }
    }
  }
#if HWY_TARGET != HWY_SCALAR
  // Table of this type and size; indices of every byte count for which the op is documented.
  template <class DI> HWY_NOINLINE void ByteTable(DI di) {
    using TI = TFromD<DI>;
    const size_t ib = MaxLanes(di) * sizeof(TI);
    for (int r = 0; r < (E().thorough ? 40 : 3); ++r) for (int or0 = 0; or0 < 2; ++or0) {
      Bytes c = RandBytes(VB, g);
      const size_t lim = VB < 16 ? VB : 16;
      Bytes ix(ib); for (auto& x : ix) x = static_cast<uint8_t>(or0 && g.below(3) == 0 ? 128 + g.below(128) : g.below(static_cast<uint32_t>(lim)));
      const V a = InVec(d, c.data()); const auto iv = InVec(di, ix.data());
      c.insert(c.end(), ix.begin(), ix.end());
      if (or0) OutVec(di, TableLookupBytesOr0(a, iv), c); else OutVec(di, TableLookupBytes(a, iv), c);
      Rec(or0 ? "TableLookupBytesOr0" : "TableLookupBytes", t.c_str(), c, X(VB, true));
    }
  }
  HWY_NOINLINE void ByteTables() {
    if constexpr (kInt) {
      ByteTable(Repartition<uint8_t, D>());
      if constexpr (sizeof(T) == 1) {
        if constexpr (VB >= 8) ByteTable(Repartition<int64_t, D>());
        if constexpr (VB >= 4) ByteTable(Repartition<uint32_t, D>());
        // Full table, smaller index vectors.
        if constexpr (VB >= 16) { ByteTable(CappedTag<uint8_t, 4>()); ByteTable(CappedTag<int8_t, 8>()); ByteTable(CappedTag<uint16_t, 1>()); if constexpr (VB >= 32) ByteTable(CappedTag<uint8_t, VB / 2>()); }
        if constexpr (VB == 8) ByteTable(CappedTag<uint8_t, 16>());
      }
    }
  }
  template <size_t kTo> HWY_NOINLINE void Resize() {
    const Repartition<uint8_t, D> du8;
    auto go = [&](auto dto) HWY_ATTR {
      for (int zx = 0; zx < 2; ++zx) {
        Bytes c = RandBytes(VB, g); const V a = InVec(d, c.data());
        if (zx) OutVec(dto, ZeroExtendResizeBitCast(dto, d, a), c); else OutVec(dto, ResizeBitCast(dto, a), c);
        Rec(zx ? "ZeroExtendResizeBitCast" : "ResizeBitCast", t.c_str(), c, X(VB, true));
      }
    };
    go(CappedTag<uint8_t, kTo>());
    if constexpr (kTo >= 4) { go(CappedTag<uint32_t, kTo / 4>()); go(CappedTag<float, kTo / 4>()); }
    if constexpr (kTo >= 8) go(CappedTag<int64_t, kTo / 8>());
  }
#endif
  HWY_NOINLINE void Casts() {
#if HWY_TARGET != HWY_SCALAR
    constexpr size_t kMax = HWY_LANES(uint8_t);
    Resize<VB>();
    if constexpr (VB < kMax) Resize<VB * 2>();
    if constexpr (VB < kMax && VB * 2 < kMax) Resize<kMax>();
    if constexpr (VB > 4) Resize<VB / 2>();
    if constexpr (VB > 16) Resize<8>();
#endif
    auto cast = [&](auto tag) HWY_ATTR {
      using T2 = decltype(tag);
      if constexpr (sizeof(T2) <= VB && (HWY_TARGET != HWY_SCALAR || sizeof(T2) == sizeof(T))) {
        const Repartition<T2, D> d2;
        One("BitCast", d2, [&](V a) HWY_ATTR { return BitCast(d2, a); });
        Bytes c = RandBytes(VB, g); const auto a = InVec(d2, c.data()); OutVec(d, BitCast(d, a), c); Rec("BitCast", t.c_str(), c, X(0, false));
      }
    };
    cast(uint8_t{}); cast(int8_t{}); cast(uint16_t{}); cast(int16_t{}); cast(uint32_t{}); cast(int32_t{}); cast(uint64_t{}); cast(int64_t{}); cast(float{});
#if HWY_HAVE_FLOAT64
    cast(double{});
#endif
    cast(hwy::bfloat16_t()); cast(hwy::float16_t());
  }
  template <size_t kLo, size_t kCount> HWY_NOINLINE void Shuffles4() {
    ForIdx<kCount>([&](auto ic) HWY_ATTR {
      constexpr size_t k = kLo + decltype(ic)::value;
      One("Per4LaneBlockShuffle", d, [&](V a) HWY_ATTR { return Per4LaneBlockShuffle<(k >> 6) & 3, (k >> 4) & 3, (k >> 2) & 3, k & 3>(a); }, k, true);
    });
  }
};
template <typename T> HWY_NOINLINE void TestType() {
  ForAllSizes<T>([](auto d) HWY_ATTR {
    Swz<decltype(d)> s; s.Create(); s.Halves(); s.Blockwise(); s.Across(); s.Casts();
#if HWY_TARGET != HWY_SCALAR
    s.ByteTables();
#endif
  });
}
template <typename T> HWY_NOINLINE void Test4() {
  { Swz<ScalableTag<T>> s; s.template Shuffles4<0, 256>(); }
#if HWY_TARGET != HWY_SCALAR
  { Swz<CappedTag<T, 4>> s; s.template Shuffles4<0, 256>(); }
  { Swz<CappedTag<T, 2>> s; s.template Shuffles4<0, 16>(); }
#endif
}
HWY_NOINLINE void TestAll() {
#if VPART == 0
  TestType<uint8_t>(); TestType<int16_t>();
#elif VPART == 1
  TestType<int8_t>(); TestType<uint64_t>(); TestType<hwy::bfloat16_t>();
#if HWY_HAVE_FLOAT64
  TestType<double>();
#endif
#elif VPART == 2
  TestType<uint16_t>(); TestType<int32_t>(); TestType<int64_t>();
#elif VPART == 3
  TestType<uint32_t>(); TestType<float>(); TestType<hwy::float16_t>();
#elif VPART == 4
  Test4<uint8_t>(); Test4<uint32_t>(); Test4<int64_t>();
#else
  Test4<uint16_t>(); Test4<float>();
#if HWY_HAVE_FLOAT64
  Test4<double>();
#endif
#endif
}
} } }
HWY_AFTER_NAMESPACE();
VSIMD_MAIN(hwy::HWY_NAMESPACE::vs_::TestAll)
