// C15: conversions.
#include "simd.h"
template <class T> struct IsF16 { enum { v = std::is_same<T, float16_t>::value || std::is_same<T, bfloat16_t>::value }; };
template <class T> constexpr bool fl() { return std::is_floating_point<T>::value || IsF16<T>::v; }
// value of a half or bfloat16
inline double wide(float16_t h) {
  const u16 b = bits(h);
  const int e = b >> 10 & 31, m = b & 1023;
  const double v = e == 31 ? (m ? __builtin_nan("") : __builtin_inf()) : e ? from<f64>((u64)(e - 15 + 1023) << 52 | (u64)m << 42) : m * 0x1p-24;
  return b >> 15 ? -v : v;
}
inline double wide(bfloat16_t h) { return (double)from<f32>((u32)bits(h) << 16); }
template <class T> double wide(T v) { return (double)v; }
// round to nearest even with MB explicit mantissa bits and minimum exponent EMIN
inline u16 narrow(double v, int MB, int EMIN, int inf) {
  const u64 all = bits(v), b = all & ~(1ull << 63);
  const u16 s = all >> 63 ? 0x8000 : 0;
  const int e = (int)(b >> 52) - 1023;
  if (e == 1024) return (u16)(s | inf | (b << 12 ? 1 << (MB - 1) : 0));
  if (e == -1023) return s;  // zero or far below the smallest half
  const u64 m = (b & ((1ull << 52) - 1)) | 1ull << 52;
  const int E = e < EMIN ? EMIN : e, sh = 52 - MB + (E - e);
  if (sh > 54) return s;
  u64 q = m >> sh;
  const u64 rem = m & ((1ull << sh) - 1), half = 1ull << (sh - 1);
  q += rem > half || (rem == half && (q & 1));
  const u64 r = ((u64)(E - EMIN) << MB) + q;
  return (u16)(s | (r >= (u64)inf ? (u64)inf : r));
}
inline float16_t toh(double v) { return from<float16_t>(narrow(v, 10, -14, 0x7c00)); }
inline bfloat16_t tobf(double v) { return from<bfloat16_t>(narrow(v, 7, -126, 0x7f80)); }
// Infinity and NaN of float16_t are documented as implementation-defined; the software conversions rely on that.
inline bool soft16(float16_t h) {
  return (HWY_TARGET == HWY_SSE4 || HWY_TARGET == HWY_SSSE3 || HWY_TARGET == HWY_SSE2 || HWY_TARGET == HWY_EMU128 || HWY_TARGET == HWY_WASM || HWY_TARGET == HWY_WASM_EMU256) && (bits(h) & 0x7c00) == 0x7c00;
}
inline bool soft16(...) { return false; }
// the documented conversion of one lane; sets g_any where the result is implementation-defined
template <class TO, class T> TO cvt(T v) {
  if (soft16(v)) g_any = true;
  if constexpr (std::is_same<TO, float16_t>::value) {
    const float16_t r = toh(wide(v));
    if (soft16(r)) g_any = true;
    return r;
  } else if constexpr (std::is_same<TO, bfloat16_t>::value) {  // may truncate or round; AVX512-BF16 flushes subnormals
    const double w = wide(v);
    if (fabs(w) < 0x1p-126 && (u16)(bits(g_out<TO>) << 1) == 0) return from<bfloat16_t>(std::signbit(w) ? 0x8000 : 0);
    const bfloat16_t r = tobf(w);
    if (w == w) { const bfloat16_t t = from<bfloat16_t>((u16)(bits((f32)w) >> 16)); if (bits(g_out<TO>) == bits(t)) return t; }
    return r;
  } else if constexpr (IsF16<T>::v) {
    if constexpr (fl<TO>()) return (TO)wide(v);
    else return cvt<TO>(wide(v));
  } else if constexpr (sizeof(TO) < sizeof(T) && std::is_floating_point<T>::value && std::is_floating_point<TO>::value) {
    // too large: saturation (as documented) or infinity
    const f32 g = g_out<f32>;
    if (fabs((double)v) > 3.4028234663852886e38 && fabs((double)g) == 3.4028234663852886e38 && std::signbit(g) == std::signbit(v)) return g;
    return (TO)v;
  } else if constexpr (fl<TO>()) return (TO)v;
  else if constexpr (fl<T>()) {
    if (isnan_(v)) { g_any = true; return 0; }
    const double lo = (double)lo_<TO>(), hi = ldexp(1.0, (int)sizeof(TO) * 8 - (std::is_signed<TO>::value ? 1 : 0));
    return (double)v >= hi ? hi_<TO>() : (double)v <= lo ? lo_<TO>() : (TO)v;
  } else return sat<TO>((X)v);
}
// as above; out of range is implementation-defined
template <class TO, class T> TO cvtin(T v) {
  const double lo = (double)lo_<TO>(), hi = ldexp(1.0, (int)sizeof(TO) * 8 - (std::is_signed<TO>::value ? 1 : 0));
  if (isnan_(v) || trunc((double)v) >= hi || trunc((double)v) < lo) { g_any = true; return 0; }
  return (TO)v;
}
#define RB Rebind<TZ, D>()
#define RW Repartition<TZ, D>()
OPZ(Promote, A1 | DENSE, 1, PromoteTo(RB, a), cvt<TZ>(A))
OPZ(PromoteIn, A1 | DENSE, 1, PromoteInRangeTo(RB, a), cvtin<TZ>(A))
OPZ(Demote, A1 | DENSE, 1, DemoteTo(RB, a), cvt<TZ>(A))
OPZ(DemoteIn, A1 | DENSE, 1, DemoteInRangeTo(RB, a), cvtin<TZ>(A))
OPZ(Convert, A1 | DENSE, 1, ConvertTo(RB, a), cvt<TZ>(A))
OPZ(ConvertIn, A1 | DENSE, 1, ConvertInRangeTo(RB, a), cvtin<TZ>(A))
OPZ(MaskedConvert, A1 | MASK, 1, MaskedConvertTo(RebindMask(RB, m), RB, a), M ? cvt<TZ>(A) : (TZ)0)
OPZ(Truncate, A1 | NOEXH, 1, TruncateTo(RB, a), (TZ)A)
OPZ(NearInt, A1 | DENSE, 1, NearestInt(a), cvt<TZ>(rint((double)A)))
OPZ(DemoteNearest, A1 | DENSE, 1, DemoteToNearestInt(RB, a), cvt<TZ>(rint((double)A)))
OPZ(Ceil_, A1 | DENSE, 1, CeilInt(a), cvt<TZ>(ceil((double)A)))
OPZ(Floor_, A1 | DENSE, 1, FloorInt(a), cvt<TZ>(floor((double)A)))
OPZ(U8From, A1 | NOEXH, 1, U8FromU32(And(a, Set(d, 255))), (TZ)(A & 255))
// halves and alternate lanes: N inputs, N/2 outputs
OPZ(PLower, A1 | SMALL, 2, PromoteLowerTo(RW, a), cvt<TZ>(pa[i]))
OPZ(PUpper, A1 | SMALL, 2, PromoteUpperTo(RW, a), cvt<TZ>(pa[i + N / 2]))
OPZ(PEven, A1 | SMALL, 2, PromoteEvenTo(RW, a), cvt<TZ>(pa[2 * i]))
OPZ(POdd, A1 | SMALL, 2, PromoteOddTo(RW, a), cvt<TZ>(pa[2 * i + 1]))
OPZ(PILower, A1 | SMALL, 2, PromoteInRangeLowerTo(RW, a), cvtin<TZ>(pa[i]))
OPZ(PIUpper, A1 | SMALL, 2, PromoteInRangeUpperTo(RW, a), cvtin<TZ>(pa[i + N / 2]))
OPZ(PIEven, A1 | SMALL, 2, PromoteInRangeEvenTo(RW, a), cvtin<TZ>(pa[2 * i]))
OPZ(PIOdd, A1 | SMALL, 2, PromoteInRangeOddTo(RW, a), cvtin<TZ>(pa[2 * i + 1]))
// two inputs, 2N outputs
OPZ(Ordered2, A2, 1, OrderedDemote2To(RW, a, b), cvt<TZ>(i < N ? pa[i] : pb[i - N]))
OPZ(OrderedTrunc2, A2 | SMALL, 1, OrderedTruncate2To(RW, a, b), (TZ)(i < N ? pa[i] : pb[i - N]))
// The permutation must not depend on the data: learnt once per vector size, then used.
struct Perm { u8 p[64]; bool ok, done; };
template <class TZ, class T> Perm& perm(size_t N) { static Perm q[8]; return q[__builtin_ctzll(N)]; }
template <class TZ> OPX_HEAD(Reorder2, static char nm[48]; snprintf(nm, sizeof nm, "Reorder2<%s>", tname<TZ>()); return nm;, A2, 1, 0, 1, ReorderDemote2To(RW, a, b),
    cvt<TZ>(perm<TZ, T>(N).p[i] < N ? pa[perm<TZ, T>(N).p[i]] : pb[perm<TZ, T>(N).p[i] - N]))

template <class TZ, class T> void learn() {
  char nm[40];
  snprintf(nm, sizeof nm, "ReorderIsPermutation<%s>", tname<TZ>());
  auto f = [](auto d) HWY_ATTR {
    using D = decltype(d);
    const size_t N = Lanes(d);
    alignas(64) T a[64], b[64];
    alignas(64) TZ o[64];
    for (size_t i = 0; i < N; i++) a[i] = (T)(i + 1), b[i] = (T)(N + i + 1);
    const Repartition<TZ, D> dz;
    StoreU(ReorderDemote2To(dz, LoadU(d, a), LoadU(d, b)), dz, o);
    Perm& q = perm<TZ, T>(N);
    u64 seen = 0;
    for (size_t i = 0; i < 2 * N; i++) { const size_t v = (size_t)wide(o[i]) - 1; q.p[i] = (u8)(v % (2 * N)); if (v < 2 * N) seen |= 1ull << v; }
    EX_CHECK(seen == (N == 32 ? ~0ull : (1ull << 2 * N) - 1), "N=%zu ReorderDemote2To is not a permutation of its inputs", N);
    ex::add();
  };
  group<T>(nm, f);
  sizes_do<T, 1>(f);  // also when only one group is replayed
}
template <class TZ, class... Ts> void reorder() { (void)std::initializer_list<int>{(learn<TZ, Ts>(), types<Reorder2<TZ>, Ts>(), 0)...}; }

// BitCast family, on all byte values, for all pairs of lane types.
template <class T, class TZ> void casts() {
  char nm[40];
  snprintf(nm, sizeof nm, "BitCast<%s>", tname<TZ>());
  group<T>(nm, [](auto d) HWY_ATTR {
    using D = decltype(d);
    constexpr size_t bytes = MaxLanes(D()) * sizeof(T);
    alignas(64) u8 in[64], o[128];
    auto fill = [&](int r) { for (int k = 0; k < 64; k++) in[k] = (u8)(k * 37 + r); };
    for (int r = 0; r < 256; r++) {
      fill(r);
      const auto v = LoadU(d, (const T*)in);
      if constexpr (bytes >= sizeof(TZ) && (HWY_TARGET != HWY_SCALAR || sizeof(T) == sizeof(TZ))) {
        const Repartition<TZ, D> dz;
        memset(o, 0xEE, sizeof o);
        StoreU(BitCast(dz, v), dz, (TZ*)o);
        EX_CHECK(!memcmp(in, o, bytes) && o[bytes] == 0xEE, "N=%zu r=%d BitCast to %s", Lanes(d), r, tname<TZ>());
        ex::add();
      }
      auto to = [&](auto dz) HWY_ATTR {
        constexpr size_t ob = MaxLanes(decltype(dz)()) * sizeof(TZ), mn = ob < bytes ? ob : bytes;
        memset(o, 0xEE, sizeof o);
        StoreU(ResizeBitCast(dz, v), dz, (TZ*)o);
        EX_CHECK(!memcmp(in, o, mn), "N=%zu r=%d ResizeBitCast to %zu x %s", Lanes(d), r, Lanes(dz), tname<TZ>());
        memset(o, 0xEE, sizeof o);
        StoreU(ZeroExtendResizeBitCast(dz, d, v), dz, (TZ*)o);
        bool z = true;
        for (size_t k = mn; k < ob; k++) z &= o[k] == 0;
        EX_CHECK(!memcmp(in, o, mn) && z && o[ob] == 0xEE, "N=%zu r=%d ZeroExtendResizeBitCast to %zu x %s", Lanes(d), r, Lanes(dz), tname<TZ>());
        ex::add(2);
      };
      if (r < 16) sizes_do<TZ, 1>(to);
    }
  });
}
template <class TZ, class... Ts> void castsf() { (void)std::initializer_list<int>{(casts<Ts, TZ>(), 0)...}; }

#if PART == 2
// Scalar conversions of hwy/base.h
template <class F> void sc(const char* n, F f) { if (!ex::enter(n)) return; f(); ex::group_end(); }
void scalar() {
  using namespace hwy;
  sc("F32FromF16", [] { for (u32 k = 0; k < 65536; k++) { const float16_t h = from<float16_t>((u16)k); const f32 g = F32FromF16(h); EX_CHECK(same(g, (f32)wide(h)), "F32FromF16(%04x) = %a", k, g); } ex::add(65536); });
  sc("F32FromBF16", [] { for (u32 k = 0; k < 65536; k++) { const bfloat16_t h = from<bfloat16_t>((u16)k); const f32 g = F32FromBF16(h); EX_CHECK(same(g, (f32)wide(h)), "F32FromBF16(%04x) = %a", k, g); } ex::add(65536); });
  const bool th = ex::thorough();
  sc("FromF32", [&] {
    const int lb = th ? 32 : 20;
    for (u64 u = 0; u < (1ull << lb); u++) for (int o = th ? 0 : -1; o < (th ? 1 : 2); o++) {
      const f32 v = from<f32>((u32)(u << (32 - lb)) + (u32)o);
      const float16_t h = F16FromF32(v);
      const bfloat16_t b = BF16FromF32(v);
      if (!same(h, toh(v)) || !same(b, tobf(v))) { EX_FAIL("v=%a(%08x): F16FromF32 = %04x, expected %04x; BF16FromF32 = %04x, expected %04x", v, bits(v), bits(h), bits(toh(v)), bits(b), bits(tobf(v))); if (ex::many()) return; }
    }
    ex::add(2 * (th ? 1ull << 32 : 3ull << 20));
  });
  sc("FromF64", [&] {
    const int lb = th ? 27 : 24;
    for (u64 u = 0; u < (1ull << lb); u++) for (int o = -1; o < 2; o++) {
      const f64 v = from<f64>((u << (64 - lb)) + (u64)(i64)o);
      const float16_t h = F16FromF64(v);
      const bfloat16_t b = BF16FromF64(v);
      if (!same(h, toh(v)) || !same(b, tobf(v))) { EX_FAIL("v=%a(%016llx): F16FromF64 = %04x, expected %04x; BF16FromF64 = %04x, expected %04x", v, (unsigned long long)bits(v), bits(h), bits(toh(v)), bits(b), bits(tobf(v))); if (ex::many()) return; }
    }
    ex::add(6ull << lb);
  });
  sc("Compare", [&] {  // comparison operators of the 16-bit types: all pairs over a boundary set
    std::vector<u16> s;
    for (u32 k = 0; k < 65536; k++) { const u32 lo = k & 0x3ff, lb = k & 0x7f; if ((lo < 2 || lo == 0x3ff || lo == 0x200) || (lb < 2 || lb == 0x7f)) s.push_back((u16)k); }
    uint64_t n = 0;
    for (size_t i = 0; i < s.size(); i += th ? 1 : 7) for (size_t j = 0; j < s.size(); j += th ? 1 : 5) {
      auto cmp = [&](auto x, auto y) {
        const double p = wide(x), q = wide(y);
        if ((x == y) != (p == q) || (x != y) != (p != q) || (x < y) != (p < q) || (x <= y) != (p <= q) || (x > y) != (p > q) || (x >= y) != (p >= q)) EX_FAIL("comparing %04x and %04x", bits(x), bits(y));
        n += 6;
      };
      cmp(from<float16_t>(s[i]), from<float16_t>(s[j]));
      cmp(from<bfloat16_t>(s[i]), from<bfloat16_t>(s[j]));
      if (ex::many()) return;
    }
    ex::add(n);
  });
}
#endif
void all() {
#if PART == 0
  // integer to integer
  types<Promote<u16>, u8>(); types<Promote<i16>, u8, i8>(); types<Promote<u32>, u8, u16>(); types<Promote<i32>, u8, i8, u16, i16>(); types<Promote<u64>, u8, u16, u32>(); types<Promote<i64>, u8, i8, u16, i16, u32, i32>();
  types<Demote<u8>, u16, i16, u32, i32, u64, i64>(); types<Demote<i8>, u16, i16, u32, i32, u64, i64>(); types<Demote<u16>, u32, i32, u64, i64>(); types<Demote<i16>, u32, i32, u64, i64>(); types<Demote<u32>, u64, i64>(); types<Demote<i32>, u64, i64>();
  types<Truncate<u8>, u16, u32, u64>(); types<Truncate<u16>, u32, u64>(); types<Truncate<u32>, u64>();
  types<U8From<u8>, u32>();
#if HWY_TARGET != HWY_SCALAR
  types<Ordered2<u8>, u16, i16>(); types<Ordered2<i8>, u16, i16>(); types<Ordered2<u16>, u32, i32>(); types<Ordered2<i16>, u32, i32>(); types<Ordered2<u32>, u64, i64>(); types<Ordered2<i32>, u64, i64>();
  reorder<u8, u16, i16>(); reorder<i8, u16, i16>(); reorder<u16, u32, i32>(); reorder<i16, u32, i32>(); reorder<u32, u64, i64>(); reorder<i32, u64, i64>();
  types<OrderedTrunc2<u8>, u16>(); types<OrderedTrunc2<u16>, u32>(); types<OrderedTrunc2<u32>, u64>();
#define HALF_(P) types<P<u16>, u8>(); types<P<i16>, u8, i8>(); types<P<u32>, u16>(); types<P<i32>, u16, i16>(); types<P<u64>, u32>(); types<P<i64>, u32, i32>();
  HALF_(PLower) HALF_(PUpper)
#define EO_(P) types<P<u16>, u8>(); types<P<i16>, i8>(); types<P<u32>, u16>(); types<P<i32>, i16>(); types<P<u64>, u32>(); types<P<i64>, i32>();
  EO_(PEven) EO_(POdd)
#endif
#elif PART == 1
  // integer and floating-point
  types<Convert<f32>, u32, i32>(); types<Convert<f64>, u64, i64>(); types<Convert<u32>, f32>(); types<Convert<i32>, f32>(); types<Convert<u64>, f64>(); types<Convert<i64>, f64>();
  types<ConvertIn<u32>, f32>(); types<ConvertIn<i32>, f32>(); types<ConvertIn<u64>, f64>(); types<ConvertIn<i64>, f64>();
  types<MaskedConvert<f32>, u32, i32>(); types<MaskedConvert<f64>, u64, i64>(); types<MaskedConvert<u32>, f32>(); types<MaskedConvert<i32>, f32>(); types<MaskedConvert<u64>, f64>(); types<MaskedConvert<i64>, f64>();
  types<NearInt<i32>, f32>(); types<NearInt<i64>, f64>(); types<DemoteNearest<i32>, f64>(); types<Ceil_<i32>, f32>(); types<Ceil_<i64>, f64>(); types<Floor_<i32>, f32>(); types<Floor_<i64>, f64>();
  types<Promote<f64>, u32, i32, f32>(); types<Promote<u64>, f32>(); types<Promote<i64>, f32>(); types<PromoteIn<u64>, f32>(); types<PromoteIn<i64>, f32>();
  types<Demote<f32>, u64, i64, f64>(); types<Demote<u32>, f64>(); types<Demote<i32>, f64>(); types<DemoteIn<u32>, f64>(); types<DemoteIn<i32>, f64>();
#if HWY_TARGET != HWY_SCALAR
  types<PLower<f64>, u32, i32, f32>(); types<PUpper<f64>, u32, i32, f32>(); types<PEven<f64>, f32>(); types<POdd<f64>, f32>();
  types<PLower<u64>, f32>(); types<PLower<i64>, f32>(); types<PUpper<u64>, f32>(); types<PUpper<i64>, f32>();
  types<PILower<u64>, f32>(); types<PILower<i64>, f32>(); types<PIUpper<u64>, f32>(); types<PIUpper<i64>, f32>();
  types<PIEven<u64>, f32>(); types<PIEven<i64>, f32>(); types<PIOdd<u64>, f32>(); types<PIOdd<i64>, f32>();
#endif
#elif PART == 2
  // half-precision
  types<Promote<f32>, float16_t, bfloat16_t>(); types<Promote<f64>, float16_t>(); types<Demote<float16_t>, f32, f64>(); types<Demote<bfloat16_t>, f32>();
#if HWY_TARGET != HWY_SCALAR
  types<PLower<f32>, float16_t, bfloat16_t>(); types<PUpper<f32>, float16_t, bfloat16_t>(); types<PEven<f32>, float16_t, bfloat16_t>(); types<POdd<f32>, float16_t, bfloat16_t>();
  types<Ordered2<bfloat16_t>, f32>(); reorder<bfloat16_t, f32>();
#endif
#if HWY_HAVE_FLOAT16
  types<Convert<float16_t>, u16, i16>(); types<Convert<u16>, float16_t>(); types<Convert<i16>, float16_t>(); types<ConvertIn<u16>, float16_t>(); types<ConvertIn<i16>, float16_t>();
  types<MaskedConvert<float16_t>, u16, i16>(); types<MaskedConvert<u16>, float16_t>(); types<MaskedConvert<i16>, float16_t>();
  types<NearInt<i16>, float16_t>(); types<Ceil_<i16>, float16_t>(); types<Floor_<i16>, float16_t>();
#endif
  scalar();
  castsf<u8, ALL_>(); castsf<i16, ALL_>(); castsf<u32, ALL_>(); castsf<f64, ALL_>();
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
