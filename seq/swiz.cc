// C17: lane movement. Every op is a map from output lanes to input lanes; lane
// contents are pairwise distinct, and partial vectors also come with garbage
// beyond their last lane.
#include "simd.h"
namespace {
template <class T> void fillv(T* p, size_t n, int salt, int base) {
  for (size_t i = 0; i < n; i++) {
    u8 by[sizeof(T)];
    for (size_t k = 0; k < sizeof(T); k++) by[k] = (u8)((i + (size_t)base) * 2 + 1 + k * 0x4d + (k ? i * 31 * k : 0));
    if (salt == 1) for (auto& q : by) q = (u8)~q;
    if (salt == 2) {  // all bits of the top two bytes set: NaN for floats
      by[sizeof(T) - 1] |= sizeof(T) > 1 ? 0x7f : 0;
      if (sizeof(T) > 2) by[sizeof(T) - 2] |= 0xf0;
    }
    memcpy((void*)(p + i), by, sizeof by);
  }
}
constexpr int kSalts = 3;
template <class T> void bad(const char* op, size_t i, T got, T exp) {
  EX_FAIL("%s: lane %zu is 0x%llx, expected 0x%llx", op, i, (unsigned long long)bits(got), (unsigned long long)bits(exp));
}
template <class T> using K2 = size_t (*)(const T* a, const T* b, void* out, bool g);
template <class T> void drive(const char* op, K2<T> k, int (*src)(int, int, int), size_t N) {
  alignas(64) T a[64], b[64], o[128];
  const int B = (int)HWY_MIN(N, 16 / sizeof(T));
  for (int salt = 0; salt < kSalts; salt++) for (int g = 0; g < 2; g++) {
    fillv(a, N, salt, 0);
    fillv(b, N, salt, (int)N);
    ex::at("N=%zu%s", N, g ? " garbage beyond" : "");
    const size_t no = k(a, b, o, g) / sizeof(T);
    for (size_t i = 0; i < no; i++) {
      const int s = src((int)i, (int)N, B);
      if (s == -2) continue;
      const T w = s < 0 ? from<T>(0) : s < (int)N ? a[s] : b[s - (int)N];
      if (bits(w) != bits(o[i])) { bad(op, i, o[i], w); break; }
    }
    ex::add(no, 1);
  }
}
template <class Op, class D> HWY_NOINLINE size_t kern2(const TFromD<D>* pa, const TFromD<D>* pb, void* out, bool g) {
  const D d;
  const auto r = Op::vec(d, ldg(d, pa, g), ldg(d, pb, g));
  const DFromV<decltype(r)> dr;
  StoreU(r, dr, (TFromD<decltype(dr)>*)out);
  return Lanes(dr) * sizeof(TFromD<decltype(dr)>);
}
template <class Op, class T, size_t K> void psz() {
  if constexpr (K * sizeof(T) <= HWY_MAX_BYTES && (HWY_TARGET != HWY_SCALAR || K == 1)) {
    if constexpr (Op::ok((int)K, (int)sizeof(T)) && (HWY_TARGET != HWY_SCALAR || Op::kScalar)) drive<T>(Op::name(), &kern2<Op, CappedTag<T, K>>, &Op::src, K);
    psz<Op, T, K * 2>();
  }
}
template <class Op, class T> void pt() {
  char n[100];
  snprintf(n, sizeof n, "%s/%s", Op::name(), tname<T>());
  if (!ex::enter(n)) return;
  psz<Op, T, 1>();
  ex::group_end();
}
template <class Op, class... Ts> void P(std::initializer_list<int> = {}) { (void)std::initializer_list<int>{(pt<Op, Ts>(), 0)...}; }
#define PERM_(NAME, STR, SCAL, OK, VEC, SRC)                                                       \
  struct NAME {                                                                                    \
    static const char* name() { STR }                                                              \
    enum { kScalar = SCAL };                                                                       \
    static constexpr bool ok(int N, int S) { (void)N, (void)S; return OK; }                        \
    template <class D, class V> static HWY_INLINE auto vec(D d, V a, V b) { (void)d, (void)a, (void)b; return VEC; } \
    static int src(int i, int N, int B) { (void)i, (void)N, (void)B; return SRC; }                 \
  };
#define PERM(NAME, OK, VEC, SRC) PERM_(NAME, return #NAME;, 0, OK, VEC, SRC)
#define PERMS(NAME, OK, VEC, SRC) PERM_(NAME, return #NAME;, 1, OK, VEC, SRC)
#define PERMK(NAME, SCAL, OK, VEC, SRC) \
  template <int K> PERM_(NAME, static char s[40]; snprintf(s, sizeof s, #NAME "<%d>", K); return s;, SCAL, OK, VEC, SRC)
#define HD Half<D>()
// --- halves and concatenation
PERMS(LowerHalf_, N >= 2, LowerHalf(a), i)
PERMS(LowerHalfD, N >= 2, LowerHalf(HD, a), i)
#if HWY_TARGET != HWY_SCALAR
PERM(UpperHalf_, N >= 2, UpperHalf(HD, a), i + N / 2)
PERM(ZeroExtendVector_, N >= 2, ZeroExtendVector(d, LowerHalf(a)), i < N / 2 ? i : -1)
PERM(ZeroExtendUpper, N >= 2, ZeroExtendVector(d, UpperHalf(HD, a)), i < N / 2 ? i + N / 2 : -1)
PERM(Combine_, N >= 2, Combine(d, LowerHalf(a), UpperHalf(HD, b)), i < N / 2 ? N + N / 2 + i : i - N / 2)
PERM(CombineLL, N >= 2, Combine(d, LowerHalf(a), LowerHalf(b)), i < N / 2 ? N + i : i - N / 2)
PERM(ConcatLL, N >= 2, ConcatLowerLower(d, a, b), i < N / 2 ? N + i : i - N / 2)
PERM(ConcatUU, N >= 2, ConcatUpperUpper(d, a, b), i < N / 2 ? N + N / 2 + i : i)
PERM(ConcatLU, N >= 2, ConcatLowerUpper(d, a, b), i < N / 2 ? N + N / 2 + i : i - N / 2)
PERM(ConcatUL, N >= 2, ConcatUpperLower(d, a, b), i < N / 2 ? N + i : i)
PERM(ConcatOdd_, N >= 2, ConcatOdd(d, a, b), i < N / 2 ? N + 2 * i + 1 : 2 * (i - N / 2) + 1)
PERM(ConcatEven_, N >= 2, ConcatEven(d, a, b), i < N / 2 ? N + 2 * i : 2 * (i - N / 2))
#endif
// --- interleave
#if HWY_TARGET != HWY_SCALAR
PERM(InterleaveWholeLower_, N >= 2, InterleaveWholeLower(a, b), (i & 1) * N + i / 2)
PERM(InterleaveWholeLowerD, N >= 2, InterleaveWholeLower(d, a, b), (i & 1) * N + i / 2)
PERM(InterleaveWholeUpper_, N >= 2, InterleaveWholeUpper(d, a, b), (i & 1) * N + N / 2 + i / 2)
PERM(InterleaveLower_, N >= 2, InterleaveLower(a, b), (i & 1) * N + i / B * B + i % B / 2)
PERM(InterleaveLowerD, N >= 2, InterleaveLower(d, a, b), (i & 1) * N + i / B * B + i % B / 2)
PERM(InterleaveUpper_, N >= 2, InterleaveUpper(d, a, b), (i & 1) * N + i / B * B + B / 2 + i % B / 2)
PERM(InterleaveEven_, N >= 2, InterleaveEven(a, b), (i & 1) * N + (i & ~1))
PERM(InterleaveEvenD, N >= 2, InterleaveEven(d, a, b), (i & 1) * N + (i & ~1))
PERM(InterleaveOdd_, N >= 2, InterleaveOdd(d, a, b), (i & 1) * N + (i | 1))
PERM(ZipLower_, N >= 2, ZipLower(a, b), (i & 1) * N + i / B * B + i % B / 2)
PERM(ZipLowerD, N >= 2, ZipLower(RepartitionToWide<D>(), a, b), (i & 1) * N + i / B * B + i % B / 2)
PERM(ZipUpper_, N >= 2, ZipUpper(RepartitionToWide<D>(), a, b), (i & 1) * N + i / B * B + B / 2 + i % B / 2)
#endif
// --- fixed patterns
PERMS(OddEven_, true, OddEven(a, b), i & 1 ? i : N + i)
PERMS(DupEven_, true, DupEven(a), i & ~1)
#if HWY_TARGET != HWY_SCALAR
PERM(DupOdd_, N >= 2, DupOdd(a), i | 1)
PERM(Shuffle1032_, S == 4 && N >= 4, Shuffle1032(a), i ^ 2)
PERM(Shuffle0321_, S == 4 && N >= 4, Shuffle0321(a), i / 4 * 4 + (i + 1) % 4)
PERM(Shuffle2103_, S == 4 && N >= 4, Shuffle2103(a), i / 4 * 4 + (i + 3) % 4)
PERM(Shuffle2301_, S == 4 && N >= 2, Shuffle2301(a), i ^ 1)
PERM(Shuffle0123_, S == 4 && N >= 4, Shuffle0123(a), i ^ 3)
PERM(Shuffle01_, S == 8 && N >= 2, Shuffle01(a), i ^ 1)
#endif
PERMS(Reverse_, true, Reverse(d, a), N - 1 - i)
PERMS(ReverseBlocks_, N * S >= 16 || HWY_TARGET == HWY_SCALAR, ReverseBlocks(d, a), (N / B - 1 - i / B) * B + i % B)
#if HWY_TARGET != HWY_SCALAR
PERM(Reverse2_, N >= 2, Reverse2(d, a), i ^ 1)
PERM(Reverse4_, N >= 4, Reverse4(d, a), i ^ 3)
PERM(Reverse8_, N >= 8, Reverse8(d, a), i ^ 7)
#endif
PERMS(OddEvenBlocks_, true, OddEvenBlocks(a, b), (i / B & 1) ? i : N + i)
#if HWY_TARGET != HWY_SCALAR
PERM(SwapAdjacentBlocks_, N * S >= 32, SwapAdjacentBlocks(a), i ^ B)
PERM(InterleaveEvenBlocks_, N * S >= 32, InterleaveEvenBlocks(d, a, b), (i / B & 1) ? N + i - B : i)
PERM(InterleaveOddBlocks_, N * S >= 32, InterleaveOddBlocks(d, a, b), (i / B & 1) ? N + i : i + B)
PERM(Slide1Up_, true, Slide1Up(d, a), i - 1)
PERM(Slide1Down_, true, Slide1Down(d, a), i + 1 < N ? i + 1 : -1)
#endif
// --- compile-time amounts
PERMK(Broadcast_, 1, K < N && K < 16 / S, Broadcast<K>(a), i / B * B + K)
PERMK(BroadcastLane_, 1, K < N, BroadcastLane<K>(a), K)
PERMK(BroadcastBlock_, 1, K * 16 < N * S || K == 0, BroadcastBlock<K>(a), K * B + i % B)
PERMK(ExtractBlock_, 1, K * 16 < N * S || K == 0, ExtractBlock<K>(a), K * B + i)
PERMK(InsertBlock_, 1, K * 16 < N * S || K == 0, InsertBlock<K>(a, ExtractBlock<0>(b)), i / B == K ? N + i % B : i)
PERMK(SlideUpBlocks_, 1, K * 16 < N * S || K == 0, SlideUpBlocks<K>(d, a), i - K * B < 0 ? -1 : i - K * B)
PERMK(SlideDownBlocks_, 1, K * 16 < N * S || K == 0, SlideDownBlocks<K>(d, a), i + K * B >= N ? -1 : i + K * B)
#if HWY_TARGET != HWY_SCALAR
PERMK(ShiftLeftLanes_, 0, K < N && K < 16 / S, ShiftLeftLanes<K>(a), i % B < K ? -1 : i - K)
PERMK(ShiftLeftLanesD, 0, K < N && K < 16 / S, ShiftLeftLanes<K>(d, a), i % B < K ? -1 : i - K)
PERMK(ShiftRightLanes_, 0, K < N && K < 16 / S, ShiftRightLanes<K>(d, a), i % B + K >= B ? -1 : i + K)
PERMK(CombineShiftRightLanes_, 0, K > 0 && K < N && K < 16 / S, CombineShiftRightLanes<K>(d, a, b), i % B + K >= B ? i + K - B : N + i + K)
#endif
// byte shifts, on bytes
#define RB8(v) BitCast(d, v)
#if HWY_TARGET != HWY_SCALAR
PERMK(ShiftLeftBytes_, 0, K > 0 && K < N && K < 16, ShiftLeftBytes<K>(a), i % B < K ? -1 : i - K)
PERMK(ShiftLeftBytesD, 0, K > 0 && K < N && K < 16, ShiftLeftBytes<K>(d, a), i % B < K ? -1 : i - K)
PERMK(ShiftRightBytes_, 0, K > 0 && K < N && K < 16, ShiftRightBytes<K>(d, a), i % B + K >= B ? -1 : i + K)
PERMK(CombineShiftRightBytes_, 0, K > 0 && K < N && K < 16, CombineShiftRightBytes<K>(d, a, b), i % B + K >= B ? i + K - B : N + i + K)
#endif
// the same on wider integer lanes (the driver's lanes are the bytes)
#define WIDE_(d, v) BitCast(Repartition<TW, D>(), v)
#if HWY_TARGET != HWY_SCALAR
template <class TW> struct W {
  PERMK(ShiftLeftBytesW, 0, K > 0 && K < N && K < 16 && N >= (int)sizeof(TW), ShiftLeftBytes<K>(WIDE_(d, a)), i % B < K ? -1 : i - K)
  PERMK(ShiftRightBytesW, 0, K > 0 && K < N && K < 16 && N >= (int)sizeof(TW), ShiftRightBytes<K>(Repartition<TW, D>(), WIDE_(d, a)), i % B + K >= B ? -1 : i + K)
  PERMK(CombineShiftRightBytesW, 0, K > 0 && K < N && K < 16 && N >= (int)sizeof(TW), CombineShiftRightBytes<K>(Repartition<TW, D>(), WIDE_(d, a), WIDE_(d, b)), i % B + K >= B ? i + K - B : N + i + K)
};
#endif
template <int K> PERM_(Per4, static char s[40]; snprintf(s, sizeof s, "Per4LaneBlockShuffle<%d,%d,%d,%d>", K >> 6, K >> 4 & 3, K >> 2 & 3, K & 3); return s;, 1,
  N * S >= 16 || N <= 4, (Per4LaneBlockShuffle<(K >> 6), (K >> 4 & 3), (K >> 2 & 3), (K & 3)>(a)), (K >> 2 * (i & 3) & 3) >= N ? -2 : (i & ~3) + (K >> 2 * (i & 3) & 3))
template <template <int> class Op, class... Ts, int... Ks> void PKs(std::integer_sequence<int, Ks...>) { (void)std::initializer_list<int>{(P<Op<Ks>, Ts...>(), 0)...}; }
template <template <int> class Op, int n, class... Ts> void PK() { PKs<Op, Ts...>(std::make_integer_sequence<int, n>()); }

// --- run-time amounts, indices and masks
template <class T> void cmp(const char* op, const T* got, const T* exp, size_t n) {
  ex::add();
  if (HWY_LIKELY(!memcmp(got, exp, n * sizeof(T)))) return;
  for (size_t i = 0; i < n; i++) if (bits(got[i]) != bits(exp[i])) { bad(op, i, got[i], exp[i]); return; }
}
struct Slides {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const size_t N = Lanes(d);
    alignas(64) T a[64], o[64], w[64];
    for (int salt = 0; salt < kSalts; salt++) for (int g = 0; g < 2; g++) {
      fillv(a, N, salt, 0);
      for (size_t k = 0; k < N; k++) {
        ex::at("N=%zu amount=%zu%s", N, k, g ? " garbage beyond" : "");
        for (size_t i = 0; i < N; i++) w[i] = i < k ? from<T>(0) : a[i - k];
        StoreU(SlideUpLanes(d, ldg(d, a, g), k), d, o);
        cmp("SlideUpLanes", o, w, N);
        for (size_t i = 0; i < N; i++) w[i] = i + k < N ? a[i + k] : from<T>(0);
        StoreU(SlideDownLanes(d, ldg(d, a, g), k), d, o);
        cmp("SlideDownLanes", o, w, N);
      }
    }
  }
};
struct Lanes_ {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const size_t N = Lanes(d);
    alignas(64) T a[64], o[64], w[64];
    for (int salt = 0; salt < kSalts; salt++) for (int g = 0; g < 2; g++) {
      fillv(a, N, salt, 0);
      ex::at("N=%zu GetLane", N);
      o[0] = GetLane(ldg(d, a, g));
      cmp("GetLane", o, a, 1);
      for (size_t k = 0; k < N; k++) {
        ex::at("N=%zu lane=%zu", N, k);
        o[0] = ExtractLane(ldg(d, a, g), k);
        cmp("ExtractLane", o, a + k, 1);
        memcpy((void*)w, a, sizeof w);
        fillv(w + k, 1, salt, 77);
        const T t = w[k];
        StoreU(InsertLane(ldg(d, a, g), k, t), d, o);
        cmp("InsertLane", o, w, N);
      }
      using TU = Bits<T>;
      (void)sizeof(TU);
    }
  }
};
// complete for N <= 4 (base^N); beyond: affine index vectors, and every (lane, index) and, for up to 16 lanes, pairs of lanes over four bases
template <class F> void indexvecs(size_t N, size_t R, F f) {
  u32 ix[64];
  u64 tot = 1;
  for (size_t i = 0; i < N && tot < 1 << 20; i++) tot *= R;
  if (tot <= 4096 || (ex::thorough() && tot <= 1 << 16)) {
    for (u64 t = 0; t < tot; t++) { u64 q = t; for (size_t i = 0; i < N; i++) ix[i] = (u32)(q % R), q /= R; f(ix); if (ex::many()) return; }
    return;
  }
  for (size_t s = 0; s < R; s++) for (size_t m = 0; m < R; m++) { for (size_t i = 0; i < N; i++) ix[i] = (u32)((s + m * i) % R); f(ix); }
  for (size_t x = 0; x < R; x++) { for (size_t i = 0; i < N; i++) ix[i] = (u32)((i ^ x) % R); f(ix); }
  for (int base = 0; base < 4; base++) {
    auto b0 = [&](size_t i) { return (u32)(base == 0 ? i : base == 1 ? R - 1 - i : base == 2 ? 0 : R - 1); };
    for (size_t i0 = 0; i0 < N; i0++) for (size_t j0 = 0; j0 < R; j0++) {
      for (size_t i = 0; i < N; i++) ix[i] = i == i0 ? (u32)j0 : b0(i);
      f(ix);
      if (N <= 8 || (ex::thorough() && N <= 16)) for (size_t i1 = 0; i1 < i0; i1++) for (size_t j1 = 0; j1 < R; j1++) { ix[i1] = (u32)j1; f(ix); ix[i1] = b0(i1); }
      if (ex::many()) return;
    }
  }
}
struct Table {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const RebindToSigned<D> di;
    const RebindToUnsigned<D> du;
    using TI = TFromD<decltype(di)>;
    using TU = TFromD<decltype(du)>;
    const size_t N = Lanes(d);
    alignas(64) T a[64], b[64], o[64], w[64];
    alignas(64) TI ix[64];
    alignas(64) TU iu[64];
    fillv(a, N, 0, 0);
    fillv(b, N, 0, (int)N);
    int g = 0;
    indexvecs(N, N, [&](const u32* x) HWY_ATTR {
      ex::at("N=%zu TableLookupLanes indices %u,%u,%u,%u..", N, x[0], x[1], x[2], x[3]);
      g ^= 1;
      for (size_t i = 0; i < N; i++) ix[i] = (TI)x[i], iu[i] = (TU)x[i], w[i] = a[x[i]];
      StoreU(TableLookupLanes(ldg(d, a, g), SetTableIndices(d, ix)), d, o);
      cmp("TableLookupLanes", o, w, N);
      StoreU(TableLookupLanes(ldg(d, a, g), IndicesFromVec(d, ldg(du, iu, g))), d, o);
      cmp("TableLookupLanes(IndicesFromVec)", o, w, N);
    });
    indexvecs(N, 2 * N, [&](const u32* x) HWY_ATTR {
      ex::at("N=%zu TwoTablesLookupLanes indices %u,%u,%u,%u..", N, x[0], x[1], x[2], x[3]);
      g ^= 1;
      for (size_t i = 0; i < N; i++) ix[i] = (TI)x[i], iu[i] = (TU)x[i], w[i] = x[i] < N ? a[x[i]] : b[x[i] - N];
      StoreU(TwoTablesLookupLanes(d, ldg(d, a, g), ldg(d, b, g), SetTableIndices(d, ix)), d, o);
      cmp("TwoTablesLookupLanes", o, w, N);
      StoreU(TwoTablesLookupLanes(ldg(d, a, g), ldg(d, b, g), IndicesFromVec(d, ldg(di, ix, g))), d, o);
      cmp("TwoTablesLookupLanes(IndicesFromVec)", o, w, N);
    });
  }
};
// TableLookupBytes: table of D (u8), indices in every vector size
struct TLB {
  template <class D> void operator()(D d) const {
    const size_t N = Lanes(d), B = HWY_MIN(N, 16);
    alignas(64) u8 a[64], o[64], w[64], ix[64];
    auto each = [&](auto di) HWY_ATTR {
      const size_t NI = Lanes(di);
      // a wider index vector needs a table of at least one whole block per index block
      if (NI > N && NI > 16) return;
      auto one = [&](bool or0) HWY_ATTR {
        for (int g = 0; g < 2; g++) {
          for (size_t i = 0; i < NI; i++) w[i] = ix[i] & 0x80 ? 0 : a[i / 16 * 16 + ix[i]];
          if (or0) StoreU(TableLookupBytesOr0(ldg(d, a, g), ldg(di, ix, g)), di, o);
          else StoreU(TableLookupBytes(ldg(d, a, g), ldg(di, ix, g)), di, o);
          cmp(or0 ? "TableLookupBytesOr0" : "TableLookupBytes", o, w, NI);
        }
      };
      for (int salt = 0; salt < 2; salt++) {
        fillv(a, N, salt, 0);
        for (size_t i0 = 0; i0 < NI; i0++) for (u32 v = 0; v < 256; v++) {
          if (v >= B && v < 0x80) continue;
          ex::at("N=%zu indices %zu: lane %zu index %u", N, NI, i0, v);
          for (size_t i = 0; i < NI; i++) ix[i] = (u8)(i == i0 ? v : (i * 5 + 3) % B);
          one(true);
          if (v < 0x80) one(false);
        }
        for (u32 s = 0; s < B; s++) for (u32 m = 0; m < B; m++) {
          ex::at("N=%zu indices %zu: (%u + %u i)", N, NI, s, m);
          for (size_t i = 0; i < NI; i++) ix[i] = (u8)((s + m * i) % B);
          one(true);
          one(false);
          for (size_t i = 0; i < NI; i++) if ((i * 7 + s) % 3 == 0) ix[i] |= (u8)(0x80 | (m << 4));
          one(true);
        }
      }
    };
    sizes_do<u8, 1>(each);
  }
};
template <class TV, class TI> struct TLBW {  // other lane types: one pattern family each
  template <class D> void operator()(D d) const {
    const size_t N = Lanes(d), NB = N * sizeof(TV), B = HWY_MIN(NB, 16);
    alignas(64) u8 a[64], o[64], w[64], ix[64];
    if constexpr (MaxLanes(D()) * sizeof(TV) >= sizeof(TI)) {
      const Repartition<TI, D> di;
      for (u32 s = 0; s < B; s++) for (u32 m = 0; m < B; m++) for (int g = 0; g < 2; g++) {
        fillv(a, NB, (int)(s & 1), 0);
        ex::at("N=%zu (%u + %u i)", N, s, m);
        for (int z = 0; z < 2; z++) {
          for (size_t i = 0; i < NB; i++) { ix[i] = (u8)((s + m * i) % B); if (z && (i * 7 + s) % 3 == 0) ix[i] |= 0x80; w[i] = ix[i] & 0x80 ? 0 : a[i / 16 * 16 + ix[i]]; }
          if (z) StoreU(TableLookupBytesOr0(ldg(d, (const TV*)a, g), ldg(di, (const TI*)ix, g)), di, (TI*)o);
          else StoreU(TableLookupBytes(ldg(d, (const TV*)a, g), ldg(di, (const TI*)ix, g)), di, (TI*)o);
          cmp(z ? "TableLookupBytesOr0" : "TableLookupBytes", o, w, NB);
        }
      }
    }
  }
};
// all masks for up to 16 lanes; beyond: intervals, pairs, and every pattern of each aligned group of 8 lanes between zeros or ones
const std::vector<u64>& masks(size_t N, size_t S) {
  static std::vector<u64> v[7];
  auto& r = v[__builtin_ctzll(N)];
  if (!r.empty()) return r;
  (void)S;
  const u64 all = N == 64 ? ~0ull : (1ull << N) - 1;
  if (N <= 16) { for (u64 m = 0; m <= all; m++) r.push_back(m); return r; }
  for (size_t i = 0; i < N; i++) for (size_t j = i; j < N; j++) r.push_back((all >> (N - 1 - j)) & (all << i));
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < i; j++) r.push_back(1ull << i | 1ull << j), r.push_back(all & ~(1ull << i | 1ull << j));
  for (size_t gp = 0; gp < N; gp += 8) for (u64 m = 0; m < 256; m++) for (u64 rest : {0ull, ~0ull, 0x5555555555555555ull}) r.push_back(((rest & ~(0xffull << gp)) | m << gp) & all);
  if (ex::thorough()) for (size_t gp = 0; gp + 16 <= N; gp += 16) for (u64 m = 0; m < 65536; m++) for (u64 rest : {0ull, ~0ull}) r.push_back(((rest & ~(0xffffull << gp)) | m << gp) & all);
  return r;
}
template <class D> Mask<D> mk(D d, u64 m, bool g) {
  using TU = MakeUnsigned<TFromD<D>>;
  const RebindToUnsigned<D> du;
  alignas(64) TU x[64];
  const size_t N = Lanes(d);
  for (size_t i = 0; i < N; i++) x[i] = m >> i & 1 ? (TU)~(TU)0 : 0;
  return MaskFromVec(BitCast(d, ldg(du, x, g, 0xFF)));
}
struct Compress_ {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const size_t N = Lanes(d);
    static ex::Guard gd(4096);
    alignas(64) T a[64], o[64], w[64], lo[64], hi[64];
    u8* const e = gd.end();
    fillv(a, N, 0, 0);
    int g = 0;
    for (u64 m : masks(N, sizeof(T))) {
      ex::at("N=%zu mask=%llx%s", N, (unsigned long long)m, g ? " garbage beyond" : "");
      g ^= 1;
      size_t c = 0, n = 0;
      for (size_t i = 0; i < N; i++) if (m >> i & 1) lo[c++] = a[i]; else hi[n++] = a[i];
      memcpy((void*)w, lo, c * sizeof(T));
      memcpy((void*)(w + c), hi, n * sizeof(T));
      const bool part = hwy::HWY_NAMESPACE::CompressIsPartition<T>::value;
      const auto v = ldg(d, a, g);
      const auto M = mk(d, m, g);
      StoreU(Compress(v, M), d, o);
      cmp("Compress", o, w, part ? N : c);
      u8 bt[16];
      memset(bt, 0xA5, sizeof bt);
      const u64 mg = N < 8 ? m | (u64)(0xff << N & 0xff) * (unsigned)(g) : m;
      memcpy(bt, &mg, (N + 7) / 8);
      StoreU(CompressBits(v, bt), d, o);
      cmp("CompressBits", o, w, part ? N : c);
      // stores directly before an inaccessible page
      T* p = (T*)e - N;
      T fillr;
      memset((void*)&fillr, 0x6E, sizeof fillr);
      auto prep = [&] { memset(e - 3 * 64, 0x6E, 3 * 64); };
      auto before = [&](const char* op) { for (u8* q = e - 3 * 64; q < (u8*)p; q++) if (*q != 0x6E) { EX_FAIL("%s wrote before its destination", op); return; } };
      prep();
      size_t r = CompressStore(v, M, d, p);
      if (r != c) EX_FAIL("CompressStore returned %zu, expected %zu", r, c);
      cmp("CompressStore", p, w, c);
      before("CompressStore");
      prep();
      r = CompressBitsStore(v, bt, d, p);
      if (r != c) EX_FAIL("CompressBitsStore returned %zu, expected %zu", r, c);
      cmp("CompressBitsStore", p, w, c);
      before("CompressBitsStore");
      prep();
      r = CompressBlendedStore(v, M, d, p);
      if (r != c) EX_FAIL("CompressBlendedStore returned %zu, expected %zu", r, c);
      for (size_t i = c; i < N; i++) w[i] = fillr;
      cmp("CompressBlendedStore", p, w, N);
      before("CompressBlendedStore");
      memcpy((void*)w, hi, n * sizeof(T));
      memcpy((void*)(w + n), lo, c * sizeof(T));
      StoreU(CompressNot(v, M), d, o);
      cmp("CompressNot", o, w, part ? N : n);
      if (ex::many()) return;
    }
  }
};
struct CompressBlocks {
  template <class D> void operator()(D d) const {
    if constexpr (HWY_TARGET != HWY_SCALAR && MaxLanes(D()) >= 2) {
      const size_t N = Lanes(d);
      alignas(64) u64 a[64], o[64], w[64];
      fillv(a, N, 0, 0);
      for (u64 mb = 0; mb < 1u << (N / 2); mb++) {
        u64 m = 0;
        for (size_t i = 0; i < N; i++) m |= (mb >> (i / 2) & 1) << i;
        ex::at("N=%zu mask=%llx", N, (unsigned long long)m);
        size_t n = 0;
        for (size_t i = 0; i < N; i++) if (!(m >> i & 1)) w[n++] = a[i];
        StoreU(CompressBlocksNot(LoadU(d, a), mk(d, m, false)), d, o);
        cmp("CompressBlocksNot", o, w, n);
      }
    }
  }
};
struct Expand_ {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const size_t N = Lanes(d);
    static ex::Guard gd(4096);
    alignas(64) T a[64], o[64], w[64];
    fillv(a, N, 0, 0);
    T* const p = (T*)gd.end() - N;
    memcpy((void*)p, a, N * sizeof(T));
    int g = 0;
    for (u64 m : masks(N, sizeof(T))) {
      ex::at("N=%zu mask=%llx%s", N, (unsigned long long)m, g ? " garbage beyond" : "");
      g ^= 1;
      size_t c = 0;
      for (size_t i = 0; i < N; i++) w[i] = m >> i & 1 ? a[c++] : from<T>(0);
      StoreU(Expand(ldg(d, a, g), mk(d, m, g)), d, o);
      cmp("Expand", o, w, N);
      StoreU(LoadExpand(mk(d, m, g), d, p), d, o);
      cmp("LoadExpand", o, w, N);
      if (ex::many()) return;
    }
  }
};
struct Misc {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    using V = Vec<D>;
    const size_t N = Lanes(d);
    alignas(64) T a[4][64], o[64], w[64];
    for (int r = 0; r < 4; r++) fillv(a[r], N, 0, r * (int)N);
    auto v = [&](int r) HWY_ATTR { return LoadU(d, a[r]); };
    auto is = [&](const char* op, V x, int r) HWY_ATTR { StoreU(x, d, o); cmp(op, o, a[r], N); };
    ex::at("N=%zu tuples", N);
    const auto t2 = Create2(d, v(0), v(1));
    is("Get2", Get2<0>(t2), 0), is("Get2", Get2<1>(t2), 1);
    is("Set2", Get2<0>(Set2<0>(t2, v(3))), 3), is("Set2", Get2<1>(Set2<0>(t2, v(3))), 1), is("Set2", Get2<0>(Set2<1>(t2, v(3))), 0), is("Set2", Get2<1>(Set2<1>(t2, v(3))), 3);
    const auto t3 = Create3(d, v(0), v(1), v(2));
    is("Get3", Get3<0>(t3), 0), is("Get3", Get3<1>(t3), 1), is("Get3", Get3<2>(t3), 2);
    is("Set3", Get3<0>(Set3<0>(t3, v(3))), 3), is("Set3", Get3<1>(Set3<1>(t3, v(3))), 3), is("Set3", Get3<2>(Set3<2>(t3, v(3))), 3), is("Set3", Get3<2>(Set3<1>(t3, v(3))), 2), is("Set3", Get3<0>(Set3<2>(t3, v(3))), 0);
    const auto t4 = Create4(d, v(0), v(1), v(2), v(3));
    is("Get4", Get4<0>(t4), 0), is("Get4", Get4<1>(t4), 1), is("Get4", Get4<2>(t4), 2), is("Get4", Get4<3>(t4), 3);
    is("Set4", Get4<0>(Set4<0>(t4, v(2))), 2), is("Set4", Get4<1>(Set4<1>(t4, v(2))), 2), is("Set4", Get4<2>(Set4<2>(t4, v(1))), 1), is("Set4", Get4<3>(Set4<3>(t4, v(2))), 2), is("Set4", Get4<3>(Set4<2>(t4, v(0))), 3);
    // initialisation
    for (int r = 0; r < 4; r++) for (size_t i = 0; i < N; i++) {
      for (size_t j = 0; j < N; j++) w[j] = a[r][i];
      StoreU(Set(d, a[r][i]), d, o);
      cmp("Set", o, w, N);
    }
    for (size_t j = 0; j < N; j++) w[j] = from<T>(0);
    StoreU(Zero(d), d, o);
    cmp("Zero", o, w, N);
    for (int s = -300; s < 300; s += 7) {
      for (size_t j = 0; j < N; j++) w[j] = (T)((T)s + (T)j);
      StoreU(Iota(d, s), d, o);
      cmp("Iota", o, w, N);
    }
    const size_t B = HWY_MIN(N, 16 / sizeof(T));
    for (int r = 0; r < 4; r++) {
      T q[16] = {};
      memcpy((void*)q, a[r], B * sizeof(T));
      fillv(q, 16 / sizeof(T), r & 1, 3 * r);
      for (size_t j = 0; j < N; j++) w[j] = q[j % (16 / sizeof(T))];
      ex::at("N=%zu Dup128VecFromValues", N);
      if constexpr (sizeof(T) == 1) StoreU(Dup128VecFromValues(d, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15]), d, o);
      if constexpr (sizeof(T) == 2) StoreU(Dup128VecFromValues(d, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]), d, o);
      if constexpr (sizeof(T) == 4) StoreU(Dup128VecFromValues(d, q[0], q[1], q[2], q[3]), d, o);
      if constexpr (sizeof(T) == 8) StoreU(Dup128VecFromValues(d, q[0], q[1]), d, o);
      cmp("Dup128VecFromValues", o, w, N);
    }
  }
};
struct BitShuf {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const Repartition<u8, D> d8;
    const Repartition<i8, D> di8;
    const size_t N = Lanes(d);
    alignas(64) T a[8], o[8], w[8];
    alignas(64) u8 ix[64];
    auto run = [&](const char* what, int p) HWY_ATTR {
      ex::at("N=%zu BitShuffle %s %d", N, what, p);
      for (size_t i = 0; i < N; i++) {
        u64 r = 0;
        for (size_t j = 0; j < 8; j++) r |= ((u64)a[i] >> ix[i * 8 + j] & 1) << j;
        w[i] = (T)r;
      }
      StoreU(BitShuffle(LoadU(d, a), LoadU(d8, ix)), d, o);
      cmp("BitShuffle", o, w, N);
      StoreU(BitShuffle(LoadU(d, a), BitCast(di8, LoadU(d8, ix))), d, o);
      cmp("BitShuffle", o, w, N);
    };
    // every (index byte, index) against every single-bit value and its complement
    for (size_t k = 0; k < 8 * N; k++) for (int v = 0; v < 64; v++) for (int t = 0; t < 6; t++) {
      for (size_t i = 0; i < 8 * N; i++) ix[i] = (u8)(i == k ? v : (i * 11 + 5) % 64);
      for (size_t i = 0; i < N; i++) {
        const u64 one = 1ull << v;
        a[i] = (T)(t == 0 ? one : t == 1 ? ~one : t == 2 ? 0x123456789abcdef0ull + i : t == 3 ? ~0ull : t == 4 ? 1ull << ((v + 1) % 64) : 0xaaaaaaaaaaaaaaaaull);
      }
      run("index", v);
    }
    for (int b = 0; b < 64; b++) for (int s = 0; s < 64; s++) {
      for (size_t i = 0; i < 8 * N; i++) ix[i] = (u8)((s + i * 3) % 64);
      for (size_t i = 0; i < N; i++) a[i] = (T)(1ull << ((b + (int)i * 7) % 64));
      run("bit", b);
    }
  }
};
template <class F, class... Ts> void g(const char* n, F f) { groups<Ts...>(n, [=](auto d) HWY_ATTR { f(d); }); }
}  // namespace
#if HWY_TARGET == HWY_SCALAR
#define NS(...)
#else
#define NS(...) __VA_ARGS__
#endif
#define T32_ u32, i32, f32
#define T64_ u64, i64, f64
void all() {
#define SPEC float16_t, bfloat16_t
#if PART == 0
  P<LowerHalf_, ALLH_>(); P<LowerHalfD, ALLH_>();
  NS(P<UpperHalf_, ALLH_>()); NS(P<ZeroExtendVector_, ALL_, SPEC>()); NS(P<ZeroExtendUpper, ALLH_>()); NS(P<Combine_, ALLH_>()); NS(P<CombineLL, ALLH_>());
  NS(P<ConcatLL, ALLH_>()); NS(P<ConcatUU, ALLH_>()); NS(P<ConcatLU, ALLH_>()); NS(P<ConcatUL, ALLH_>()); NS(P<ConcatOdd_, ALLH_>()); NS(P<ConcatEven_, ALLH_>());
  NS(P<InterleaveWholeLower_, ALLH_>()); NS(P<InterleaveWholeLowerD, ALLH_>()); NS(P<InterleaveWholeUpper_, ALLH_>()); NS(P<InterleaveLower_, ALLH_>()); NS(P<InterleaveLowerD, ALLH_>()); NS(P<InterleaveUpper_, ALLH_>());
  NS(P<InterleaveEven_, ALLH_>()); NS(P<InterleaveEvenD, ALLH_>()); NS(P<InterleaveOdd_, ALLH_>());
#define NARROW_ u8, i8, u16, i16, u32, i32
  NS(P<ZipLower_, NARROW_>()); NS(P<ZipLowerD, NARROW_>()); NS(P<ZipUpper_, NARROW_>());
#elif PART == 1
  P<OddEven_, ALLH_>(); P<DupEven_, ALLH_>(); NS(P<DupOdd_, ALLH_>());
  NS(P<Shuffle1032_, T32_>()); NS(P<Shuffle0321_, T32_>()); NS(P<Shuffle2103_, T32_>()); NS(P<Shuffle2301_, T32_>()); NS(P<Shuffle0123_, T32_>()); NS(P<Shuffle01_, T64_>());
  P<Reverse_, ALLH_>(); P<ReverseBlocks_, ALLH_>(); NS(P<Reverse2_, ALL_, float16_t>()); NS(P<Reverse4_, ALL_, float16_t>()); NS(P<Reverse8_, ALL_, float16_t>());
  P<OddEvenBlocks_, ALLH_>(); NS(P<SwapAdjacentBlocks_, ALLH_>()); NS(P<InterleaveEvenBlocks_, ALLH_>()); NS(P<InterleaveOddBlocks_, ALLH_>()); NS(P<Slide1Up_, ALLH_>()); NS(P<Slide1Down_, ALLH_>());
  PK<BroadcastBlock_, 4, ALLH_>(); PK<ExtractBlock_, 4, ALLH_>(); PK<InsertBlock_, 4, ALLH_>(); PK<SlideUpBlocks_, 4, ALLH_>(); PK<SlideDownBlocks_, 4, ALLH_>();
#elif PART == 2
  PK<Broadcast_, 16, u8, i8>(); PK<Broadcast_, 8, u16, i16>(); PK<Broadcast_, 4, T32_>(); PK<Broadcast_, 2, T64_>();
  PK<BroadcastLane_, 64, u8>(); PK<BroadcastLane_, 32, u16>(); PK<BroadcastLane_, 16, u32, f32>(); PK<BroadcastLane_, 8, T64_>();
#if HWY_TARGET != HWY_SCALAR
#define LANES_(Op) PK<Op, 16, u8, i8>(); PK<Op, 8, u16, i16>(); PK<Op, 4, T32_>(); PK<Op, 2, T64_>();
  LANES_(ShiftLeftLanes_) LANES_(ShiftLeftLanesD) LANES_(ShiftRightLanes_) LANES_(CombineShiftRightLanes_)
  PK<ShiftLeftBytes_, 16, u8>(); PK<ShiftLeftBytesD, 16, u8, i8>(); PK<ShiftRightBytes_, 16, u8, i8>(); PK<CombineShiftRightBytes_, 16, u8, i8>();
  PK<W<u32>::ShiftLeftBytesW, 16, u8>(); PK<W<u32>::ShiftRightBytesW, 16, u8>(); PK<W<u32>::CombineShiftRightBytesW, 16, u8>();
  PK<W<i64>::ShiftLeftBytesW, 16, u8>(); PK<W<i64>::ShiftRightBytesW, 16, u8>(); PK<W<i64>::CombineShiftRightBytesW, 16, u8>();
#endif
#elif PART == 3
  g<Slides, ALLH_>("Slides", Slides());
  g<Lanes_, ALL_, SPEC>("Lanes", Lanes_());
  g<Misc, ALLH_>("TuplesAndInit", Misc());
  g<Table, ALLH_>("TableLookup", Table());
#if HWY_TARGET != HWY_SCALAR
  g<TLB, u8>("TableLookupBytes", TLB());
  g<TLBW<i8, u32>, i8>("TableLookupBytes<i8,u32>", TLBW<i8, u32>());
  g<TLBW<u16, i8>, u16>("TableLookupBytes<u16,i8>", TLBW<u16, i8>());
  g<TLBW<i64, u16>, i64>("TableLookupBytes<i64,u16>", TLBW<i64, u16>());
  g<TLBW<u32, u32>, u32>("TableLookupBytes<u32,u32>", TLBW<u32, u32>());
  g<BitShuf, u64, i64>("BitShuffle", BitShuf());
#endif
#elif PART == 4
  g<Compress_, ALLH_>("Compress", Compress_());
  g<CompressBlocks, u64>("CompressBlocksNot", CompressBlocks());
  g<Expand_, ALLH_>("Expand", Expand_());
#elif PART == 5
  PK<Per4, 256, u32, u8>();
#elif PART == 6
  PK<Per4, 256, f32, u64>();
#elif PART == 7
  PK<Per4, 256, f64, u16>();
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
