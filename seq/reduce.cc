// C18: reductions and widening sums.
#include "simd.h"
namespace {
constexpr bool kSc = HWY_TARGET == HWY_SCALAR;
template <class T> f32 tof(T v) {
  if constexpr (std::is_same<T, bfloat16_t>::value) return from<f32>((u32)bits(v) << 16);
  else if constexpr (std::is_same<T, float16_t>::value) {
    const u32 b = bits(v), e = b >> 10 & 31, m = b & 1023, s = (b & 0x8000) << 16;
    if (e == 31) return from<f32>(s | 0x7f800000 | m << 13);
    const f32 r = e ? from<f32>((e + 112) << 23 | m << 13) : (f32)m * (1.0f / 16777216);
    return s ? -r : r;
  } else return (f32)v;
}
template <class T> T flt(f32 v) {  // exact for the values used here
  if constexpr (std::is_same<T, bfloat16_t>::value) return from<T>((u16)(bits(v) >> 16));
  else if constexpr (std::is_same<T, float16_t>::value) {
    if (v == 0) return from<T>((u16)(bits(v) >> 16));
    const u32 b = bits(v);
    return from<T>((u16)((b >> 16 & 0x8000) | ((b >> 23 & 255) - 112) << 10 | (b >> 13 & 1023)));
  } else return (T)v;
}
template <class T> constexpr bool kFloat = std::is_same<T, bfloat16_t>::value || std::is_same<T, float16_t>::value || std::is_floating_point<T>::value;
template <class T> constexpr bool kHalf = std::is_same<T, bfloat16_t>::value || std::is_same<T, float16_t>::value;
// level 0: few values (8 digits), 1: some (4 digits), 2: many (2 digits)
template <class T> const std::vector<T>& digits(int level) {
  static std::vector<T> v[3];
  if (!v[0].empty()) return v[level];
  if constexpr (kHalf<T>) {
    for (f32 x : {0.0f, -3.0f, 128.0f, 1.0f}) for (int l = 0; l < 3; l++) v[l].push_back(flt<T>(x));
    for (f32 x : {-0.5f, 255.0f, -1.0f, 2.0f}) for (int l = 1; l < 3; l++) v[l].push_back(flt<T>(x));
    for (f32 x : {10.0f, -100.0f, 0.25f, 64.5f, -127.0f, 3.5f}) v[2].push_back(flt<T>(x));
  } else if constexpr (kFloat<T>) {
    for (double x : {0.0, -3.0, 65536.0, 0.5}) for (int l = 0; l < 3; l++) v[l].push_back((T)x);
    for (T x : alpha<T>(0)) v[1].push_back(x);
    for (T x : alpha<T>(1)) v[2].push_back(x);
  } else {
    for (T x : {(T)0, lo_<T>(), hi_<T>(), (T)-1}) if (level >= 0) for (int l = 0; l < 3; l++) { bool dup = false; for (T y : v[l]) dup |= x == y; if (!dup) v[l].push_back(x); }
    v[0].push_back((T)1);
    v[1].clear();
    for (T x : {(T)0, (T)1, (T)-1, lo_<T>(), hi_<T>(), (T)(hi_<T>() - 1), (T)(lo_<T>() + 1), (T)(hi_<T>() / 2), (T)(hi_<T>() / 2 + 1), (T)0x5b, (T)3}) { bool dup = false; for (T y : v[1]) dup |= x == y; if (!dup) v[1].push_back(x); }
    v[2].clear();
    if (sizeof(T) == 1) for (int k = 0; k < 256; k++) v[2].push_back((T)k);
    else v[2] = alpha<T>(1);
  }
  return v[level];
}
template <class T, class U> bool eqv(T a, U b_) {
  const T b = (T)b_;
  if constexpr (kFloat<T>) { const f64 x = (f64)a, y = (f64)b; return x == y || (isnan_(x) && isnan_(y)); }
  else return a == b;
}
// ---------------------------------------------------------------- ops on groups of lanes
// Each output lane is determined by G lanes of NV vectors and one wide lane if HASW.
template <class TO> void cmpo(const TO* o, const TO* w, const bool* any, size_t n, const char* how) {
  for (size_t i = 0; i < n; i++) if (!any[i] && !eqv(o[i], w[i])) {
    char g[64], e[64];
    show(g, 64, o[i]);
    show(e, 64, w[i]);
    EX_FAIL("%s: lane %zu is %s, expected %s", how, i, g, e);
    break;
  }
}
template <class Op, class D> HWY_NOINLINE size_t gk(const TFromD<D>* pa, const TFromD<D>* pb, const void* pw, void* out, bool g) {
  const D d;
  const typename Op::template DW<D> dw;
  using TW = TFromD<decltype(dw)>;
  const auto r = Op::vec(d, dw, ldg(d, pa, g), ldg(d, pb, g), ldg(dw, (const TW*)pw, g));
  const DFromV<decltype(r)> dr;
  StoreU(r, dr, (TFromD<decltype(dr)>*)out);
  return Lanes(dr);
}
template <class Op, class D> void gdrive() {
  using T = TFromD<D>;
  using DW = typename Op::template DW<D>;
  using TW = TFromD<DW>;
  using R = decltype(Op::vec(D(), DW(), Vec<D>(), Vec<D>(), Vec<DW>()));
  using TO = TFromV<R>;
  const size_t N = Lanes(D()), G = Op::G < N ? Op::G : N, NW = Lanes(DW());
  alignas(64) T in[2][64];
  alignas(64) TW wi[64];
  alignas(64) TO o[64], w[64];
  bool any[64];
  memset((void*)in, 0, sizeof in);
  memset((void*)wi, 0, sizeof wi);
  const int nd = (int)G * Op::NV;
  const int lv = nd <= 2 ? 2 : nd <= 4 ? 1 : 0;
  std::vector<T> al = digits<T>(Op::HASW && lv == 2 ? 1 : lv);
  if constexpr (!kFloat<T>) if (nd > 8) al = {lo_<T>(), hi_<T>()};
  const auto& aw = digits<TW>(Op::HASW ? 1 : 0);
  const u64 n = al.size(), nw = Op::HASW ? aw.size() : 1;
  u64 total = nw;
  for (int k = 0; k < nd; k++) total *= n;
  const size_t groups = N / G;
  u64 stride = (total / (groups + 1)) | 1;
  for (;; stride += 2) { u64 p = stride, q = total; while (q) { const u64 r = p % q; p = q; q = r; } if (p == 1) break; }
  // large spaces: over all groups, every tuple occurs; else every tuple in every group
  const bool each = total <= 70000 || ex::thorough();
  const u64 steps = each ? total : total / groups + 1;
  if (getenv("VF_SZ")) fprintf(stderr, "SZ %s N=%zu n=%d nd=%d nw=%d total=%llu steps=%llu\n", Op::name(), N, (int)n, nd, (int)nw, (unsigned long long)total, (unsigned long long)steps);
  if (!each) stride = total / groups + 1;
  for (u64 t = 0; t < steps; t++) {
    for (size_t g = 0; g < groups; g++) {
      u64 u = (t + g * stride) % total;
      for (int v = 0; v < Op::NV; v++) for (size_t k = 0; k < G; k++) { in[v][g * G + k] = al[u % n]; u /= n; }
      if (Op::HASW && g < NW) wi[g] = aw[u];
    }
    if (Op::HASW && NW > groups) for (size_t g = groups; g < NW; g++) wi[g] = aw[(t + g) % nw];
    const bool gar = t & 1;
    ex::at("N=%zu tuple %llu%s", N, (unsigned long long)t, gar ? " garbage beyond" : "");
    const size_t no = gk<Op, D>(in[0], in[1], wi, o, gar);
    for (size_t i = 0; i < no; i++) { g_any = false; g_out<TO> = o[i]; w[i] = Op::template ref<T, TO>(in[0], in[1], wi, i, N); any[i] = g_any; }
    cmpo(o, w, any, no, "result");
    if (ex::many()) return;
  }
  ex::add(steps * groups, steps);
}
template <class Op, class T, size_t K> void gsz() {
  if constexpr (K * sizeof(T) <= HWY_MAX_BYTES && (!kSc || K == 1)) {
    if constexpr ((kSc ? Op::kScalar : K >= Op::G) && Op::ok((int)K, (int)sizeof(T))) gdrive<Op, CappedTag<T, K>>();
    gsz<Op, T, K * 2>();
  }
}
template <class Op, class T> void gt() {
  char n[100];
  snprintf(n, sizeof n, "%s/%s", Op::name(), tname<T>());
  if (!ex::enter(n)) return;
  gsz<Op, T, 1>();
  ex::group_end();
}
template <class Op, class... Ts> void G() { (void)std::initializer_list<int>{(gt<Op, Ts>(), 0)...}; }
template <class D> using SameD = D;
template <class D> using Wide = RepartitionToWide<D>;
template <class D> using Wide2 = RepartitionToWideX2<D>;
template <class D> using RebW = Rebind<hwy::MakeWide<TFromD<D>>, D>;
#define GOP(NAME, G_, NV_, HASW_, SC_, OK, DW_, VEC, REF)                                                                        \
  struct NAME {                                                                                                                 \
    static const char* name() { return #NAME; }                                                                                 \
    enum { G = G_, NV = NV_, HASW = HASW_, kScalar = SC_ };                                                                     \
    template <class D> using DW = DW_<D>;                                                                                       \
    static constexpr bool ok(int N, int S) { (void)N, (void)S; return OK; }                                                     \
    template <class D, class DW, class V, class VW> static HWY_INLINE auto vec(D d, DW dw, V a, V b, VW w) { (void)d, (void)dw, (void)a, (void)b, (void)w; return VEC; } \
    template <class T, class TO, class TW> static TO ref(const T* pa, const T* pb, const TW* pw, size_t i, size_t N) { (void)pa, (void)pb, (void)pw, (void)N; return REF; } \
  };
// sums over k of f(k), modulo 2^bits; floats in float (exact for the values used, or a single addition)
template <class TO, class F> TO sumk(size_t n, TO init, F f) {
  if constexpr (kFloat<TO>) { TO s = init; for (size_t k = 0; k < n; k++) s += (TO)f(k); return s; }
  else if constexpr (sizeof(TO) == 16) { TO s = init; for (size_t k = 0; k < n; k++) s += (TO)f(k); return s; }
  else { UX s = (UX)(X)init; for (size_t k = 0; k < n; k++) s += (UX)(X)f(k); return (TO)(Bits<TO>)s; }
}
template <class T> auto num(T v) { if constexpr (kHalf<T>) return tof(v); else if constexpr (kFloat<T>) return v; else return (X)v; }
template <class TO, class T> TO sums(const T* p, size_t i, size_t G, size_t N) {
  if constexpr (kFloat<T>) { TO r = (TO)num(p[i * G]); for (size_t k = 1; k < G && k < N; k++) r += (TO)num(p[i * G + k]); return r; }
  else return sumk<TO>(G < N ? G : N, TO(0), [&](size_t k) { return num(p[i * G + k]); });
}
template <class TO, class T> TO dots(const T* a, const T* b, size_t i, size_t G, size_t N, TO init = 0) { return sumk<TO>(G < N ? G : N, init, [&](size_t k) { return num(a[i * G + k]) * num(b[i * G + k]); }); }
template <class T> X adiff(T a, T b) { return a > b ? (X)a - b : (X)b - a; }
#define S_WHOLE(G) N >= G
GOP(SumsOf2_, 2, 1, 0, 1, true, SameD, SumsOf2(a), (sums<TO>(pa, i, 2, N)))
GOP(SumsOf4_, 4, 1, 0, 0, true, SameD, SumsOf4(a), (sums<TO>(pa, i, 4, N)))
GOP(SumsOf8_, 8, 1, 0, 1, true, SameD, SumsOf8(a), (sums<TO>(pa, i, 8, N)))
GOP(SumsOf8AbsDiff_, 8, 2, 0, 0, true, SameD, SumsOf8AbsDiff(a, b), (sumk<TO>(8, TO(0), [&](size_t k) { return adiff(pa[i * 8 + k], pb[i * 8 + k]); })))
// one lane at a time over all pairs of bytes, in every position
GOP(WidenMulPairwiseAdd_, 2, 2, 0, 1, true, Wide, WidenMulPairwiseAdd(dw, a, b), (dots<TO>(pa, pb, i, 2, N)))
GOP(MaskedWidenMulPairwiseAdd_, 2, 2, 1, 0, true, Wide, MaskedWidenMulPairwiseAdd(dw, Ne(w, Zero(dw)), a, b), (pw[i] == 0 ? TO(0) : dots<TO>(pa, pb, i, 2, N)))
GOP(SatWidenMulPairwiseAdd_, 2, 2, 0, 1, true, Wide, SatWidenMulPairwiseAdd(dw, BitCast(RebindToUnsigned<D>(), a), b), (sat<TO>(sumk<X>(N < 2 ? 1 : 2, X(0), [&](size_t k) { return (X)(u8)pa[i * 2 + k] * pb[i * 2 + k]; }))))
GOP(SatWidenMulPairwiseAccumulate_, 2, 2, 1, 0, true, Wide, SatWidenMulPairwiseAccumulate(dw, a, b, w), (sat<TO>(dots<X>(pa, pb, i, 2, N, (X)pw[i]))))
// lanes i of a, b and of the sum
template <class TO> TO accfix(X a, X b, X s, TO got) {
  const TO w = sat<TO>(s + 2 * a * b);
  if (a == -32768 && b == -32768) { const TO v = sat<TO>(s + (X)0x7fffffff); if (got == v) return v; }
  return w;
}
GOP(SatWidenMulAccumFixedPoint_, 1, 2, 1, 1, N * 4 <= (int)HWY_MAX_BYTES, RebW, SatWidenMulAccumFixedPoint(dw, a, b, w), (accfix<TO>(pa[i], pb[i], pw[i], g_out<TO>)))
template <class DW, class V, class VW> HWY_INLINE VW rearr(DW dw, V a, V b, VW w) { VW s1 = Zero(dw); const VW s0 = ReorderWidenMulAccumulate(dw, a, b, w, s1); return RearrangeToOddPlusEven(s0, s1); }
template <class DW, class V, class VW> HWY_INLINE VW rearr2(DW dw, V a, V b) { VW s1 = Zero(dw); VW s0 = Zero(dw); s0 = ReorderWidenMulAccumulate(dw, a, b, s0, s1); s0 = ReorderWidenMulAccumulate(dw, b, b, s0, s1); return RearrangeToOddPlusEven(s0, s1); }
GOP(RearrangeToOddPlusEven_, 2, 2, 0, 1, true, Wide, rearr(dw, a, b, Zero(dw)), (dots<TO>(pa, pb, i, 2, N)))
GOP(RearrangeTwice_, 2, 2, 0, 1, true, Wide, (rearr2<DW, V, VW>(dw, a, b)), (dots<TO>(pb, pb, i, 2, N, dots<TO>(pa, pb, i, 2, N))))
// only the total is determined
template <class DW, class V, class VW> HWY_INLINE VW reorder(DW dw, V a, V b, VW w) { VW s1 = Zero(dw); const VW s0 = ReorderWidenMulAccumulate(dw, a, b, w, s1); return SumOfLanes(dw, Add(s0, s1)); }
template <class TO, class T, class TW> TO total(const T* a, const T* b, const TW* w, size_t N) {
  const TO s = sumk<TO>(N, TO(0), [&](size_t k) { return num(a[k]) * num(b[k]); });
  return sumk<TO>(N < 2 ? 1 : N / 2, s, [&](size_t k) { return num(w[k]); });
}
// float totals: wide lanes are zero or small
GOP(ReorderWidenMulAccumulate_, 2, 2, 1, 1, true, Wide, reorder(dw, a, b, w), (total<TO>(pa, pb, pw, N)))
GOP(ReorderWidenMulAccumulateF, 2, 2, 0, 1, true, Wide, reorder(dw, a, b, Zero(dw)), (total<TO>(pa, pb, pw, N)))
GOP(SumOfMulQuadAccumulate_, 4, 2, 1, 0, true, Wide2, SumOfMulQuadAccumulate(dw, a, b, w), (dots<TO>(pa, pb, i, 4, N, (TO)pw[i])))
template <class D> using WideI = Repartition<i32, D>;
GOP(SumOfMulQuadAccumulateUI, 4, 2, 1, 0, true, WideI, SumOfMulQuadAccumulate(dw, BitCast(RebindToUnsigned<D>(), a), b, w), (sumk<TO>(4, (TO)pw[i], [&](size_t k) { return (X)(u8)pa[i * 4 + k] * pb[i * 4 + k]; })))
// low half in the returned vector, high in the reference argument: shown concatenated by two ops
template <bool HI, class DW, class V, class VW> HWY_INLINE VW wma(DW dw, V a, V b, VW w) { VW hi = w; const VW lo = WidenMulAccumulate(dw, a, b, w, hi); return HI ? hi : lo; }
GOP(WidenMulAccumulateLow, 2, 2, 1, 0, true, Wide, (wma<false>(dw, a, b, w)), (sumk<TO>(1, (TO)pw[i], [&](size_t) { return num(pa[i]) * num(pb[i]); })))
GOP(WidenMulAccumulateHigh, 2, 2, 1, 0, true, Wide, (wma<true>(dw, a, b, w)), (sumk<TO>(1, (TO)pw[i], [&](size_t) { return num(pa[i + N / 2]) * num(pb[i + N / 2]); })))
GOP(MulEvenAdd_, 2, 2, 1, 0, true, Wide, MulEvenAdd(dw, a, b, w), (pw[i] != pw[i] || isnan_(pw[i]) || !(pw[i] < 1e7 && pw[i] > -1e7) || (pw[i] != 0 && pw[i] < 1e-3 && pw[i] > -1e-3) ? (TO)ANY() : (TO)(num(pa[2 * i]) * num(pb[2 * i]) + pw[i])))
GOP(MulOddAdd_, 2, 2, 1, 0, true, Wide, MulOddAdd(dw, a, b, w), (isnan_(pw[i]) || !(pw[i] < 1e7 && pw[i] > -1e7) || (pw[i] != 0 && pw[i] < 1e-3 && pw[i] > -1e-3) ? (TO)ANY() : (TO)(num(pa[2 * i + 1]) * num(pb[2 * i + 1]) + pw[i])))
template <class T> T addw(T a, T b) { if constexpr (kFloat<T>) return a + b; else return (T)(Bits<T>)((UX)(X)a + (UX)(X)b); }
template <class T> T subw(T a, T b) { if constexpr (kFloat<T>) return a - b; else return (T)(Bits<T>)((UX)(X)a - (UX)(X)b); }
GOP(PairwiseAdd_, 2, 2, 0, 0, true, SameD, PairwiseAdd(d, a, b), (i & 1 ? addw(pb[i - 1], pb[i]) : addw(pa[i], pa[i + 1])))
GOP(PairwiseSub_, 2, 2, 0, 0, true, SameD, PairwiseSub(d, a, b), (i & 1 ? subw(pb[i], pb[i - 1]) : subw(pa[i + 1], pa[i])))
// in each block: the pair sums of a, then those of b
template <class T> T pw128(const T* a, const T* b, size_t i, bool sub) {
  const size_t B = 16 / sizeof(T), k = i % B;
  const T* p = (k < B / 2 ? a : b) + i / B * B + k % (B / 2) * 2;
  return sub ? subw(p[1], p[0]) : addw(p[0], p[1]);
}
GOP(PairwiseAdd128_, 2, 2, 0, 0, N * S >= 16, SameD, PairwiseAdd128(d, a, b), (pw128(pa, pb, i, false)))
GOP(PairwiseSub128_, 2, 2, 0, 0, N * S >= 16, SameD, PairwiseSub128(d, a, b), (pw128(pa, pb, i, true)))

// ---------------------------------------------------------------- quads of absolute differences
// Inputs: one byte of a and one of b vary over all pairs of a set, on three backgrounds.
template <class T, class D, class F, class R> void quads(D d, const char* nm, F f, R ref) {
  const size_t N = Lanes(d);
  using DO = DFromV<decltype(f(Zero(d), Zero(d)))>;
  using TO = TFromD<DO>;
  const size_t NO = Lanes(DO());
  alignas(64) T a[64], b[64];
  alignas(64) TO o[32], w[32];
  bool any[32];
  auto one = [&](bool gar) HWY_ATTR {
    const auto r = f(ldg(d, a, gar), ldg(d, b, gar));
    StoreU(r, DO(), o);
    for (size_t i = 0; i < NO; i++) { g_any = false; w[i] = (TO)ref(a, b, i, N); any[i] = g_any; }
    cmpo(o, w, any, NO, nm);
    ex::add(NO, 1);
  };
  for (int bg = 0; bg < 4; bg++) {
    for (size_t i = 0; i < N; i++) {
      a[i] = bg == 0 ? T(0) : bg == 1 ? (T)(i * 37 + 11) : bg == 2 ? lo_<T>() : hi_<T>();
      b[i] = bg == 0 ? T(0) : bg == 1 ? (T)(i * 91 + 5) : bg == 2 ? hi_<T>() : (T)(lo_<T>() + 1);
    }
    ex::at("%s N=%zu background %d", nm, N, bg);
    one(false);
    one(true);
    for (size_t p = 0; p < N; p++) for (T x : {(T)1, (T)-1, lo_<T>(), hi_<T>(), (T)0x2d}) for (int v = 0; v < 2; v++) {
      T& s = v ? b[p] : a[p];
      const T old = s;
      s = x;
      ex::at("%s N=%zu background %d, %c[%zu] = %d", nm, N, bg, v ? 'b' : 'a', p, (int)x);
      one(p & 1);
      s = old;
      if (ex::many()) return;
    }
  }
}
#if HWY_TARGET != HWY_SCALAR
template <class T, int A, int B> void adj() {
  char nm[60];
  snprintf(nm, sizeof nm, "SumsOfAdjQuadAbsDiff<%d,%d>", A, B);
  group<T>(nm, [&](auto d) HWY_ATTR {
    using D = decltype(d);
    constexpr int ML = (int)MaxLanes(D());
    if constexpr (ML >= 4 && A <= ((ML - 1) / 4 < 1 ? (ML - 1) / 4 : 1) && B <= ((ML - 1) / 4 < 3 ? (ML - 1) / 4 : 3)) {
      quads<T>(d, nm, [](auto a, auto b) HWY_ATTR { return SumsOfAdjQuadAbsDiff<A, B>(a, b); },
               [](const T* a, const T* b, size_t i, size_t N) -> X {
                 if (N < (8u << A) && i > 0) return ANY();
                 const size_t ai = A * 4 + i / 8 * 16 + (i & 7), bi = B * 4 + i / 8 * 16;
                 X s = 0;
                 for (size_t k = 0; k < 4; k++) s += adiff(a[ai + k], b[bi + k]);
                 return s;
               });
    }
  });
}
template <class T> void abs8() {
  group<T>("SumsOf8AbsDiff lanes", [&](auto d) HWY_ATTR {
    if constexpr (MaxLanes(decltype(d)()) >= 8)
      quads<T>(d, "SumsOf8AbsDiff", [](auto a, auto b) HWY_ATTR { return SumsOf8AbsDiff(a, b); },
               [](const T* a, const T* b, size_t i, size_t) -> X { X s = 0; for (size_t k = 0; k < 8; k++) s += adiff(a[i * 8 + k], b[i * 8 + k]); return s; });
  });
}
template <class T, int A> void adjb() { adj<T, A, 0>(); adj<T, A, 1>(); adj<T, A, 2>(); adj<T, A, 3>(); }
template <class T, int I> void shuf() {
  char nm[60];
  static constexpr int i3 = I >> 6, i2 = I >> 4 & 3, i1 = I >> 2 & 3, i0 = I & 3;
  snprintf(nm, sizeof nm, "SumsOfShuffledQuadAbsDiff<%d,%d,%d,%d>", i3, i2, i1, i0);
  group<T>(nm, [&](auto d) HWY_ATTR {
    using D = decltype(d);
    if constexpr (MaxLanes(D()) >= 4 && (I % 37 == 0 || I == 0x1b || I == 0xe4 || MaxLanes(D()) * 2 > HWY_MAX_BYTES)) {
      quads<T>(d, nm, [](auto a, auto b) HWY_ATTR { return SumsOfShuffledQuadAbsDiff<i3, i2, i1, i0>(a, b); },
               [](const T* a, const T* b, size_t i, size_t N) -> X {
                 const size_t ai = i / 4 * 8 + (i & 3), bi = i / 2 * 4;
                 if (N < 16 && (ai + 3 >= N || i0 >= (int)N / 4 || (i1 >= (int)N / 4 && i > 0))) return ANY();
                 const int ix[4] = {i0, i1, i2, i3};
                 X s = 0;
                 for (size_t k = 0; k < 4; k++) {
                   const size_t p = ai + k, q = p / 4;  // 32-bit lane q of the shuffled vector
                   const size_t src = (q / 4 * 4 + (size_t)ix[q % 4]) * 4 + p % 4;
                   if (src >= N) return ANY();
                   s += adiff(a[src], b[bi + k]);
                 }
                 return s;
               });
    }
  });
}
template <class T, int B, int... Is> void shufs(std::integer_sequence<int, Is...>) { (void)std::initializer_list<int>{(shuf<T, B + Is>(), 0)...}; }
#endif
// ---------------------------------------------------------------- reductions
template <class T> struct Want { T sum, mn, mx; bool sum_ok, mm_ok; };
template <class T> Want<T> want(const T* a, u64 m, size_t N) {
  Want<T> r{};
  r.sum_ok = r.mm_ok = true;
  bool first = true;
  __float128 exact = 0;
  bool special = false;
  int nz = 0;
  T s = 0;
  for (size_t i = 0; i < N; i++) if (m >> i & 1) {
    if (isnan_(a[i])) r.mm_ok = false;
    if (first || a[i] < r.mn) r.mn = a[i];
    if (first || a[i] > r.mx) r.mx = a[i];
    first = false;
    if constexpr (kFloat<T>) {
      nz += a[i] != 0;
      if (a[i] - a[i] != 0) special = true;
      else exact += (__float128)a[i];
      s += a[i];
    } else s = (T)(Bits<T>)((UX)(X)s + (UX)(X)a[i]);
  }
  r.sum = s;
  if constexpr (kFloat<T>) r.sum_ok = nz <= 1 || special ? nz <= 1 : true;
  (void)exact;
  return r;
}
template <class T> const std::vector<T>& rvals(int level) {  // sums of up to 64 of these are exact
  if constexpr (kFloat<T> && sizeof(T) == 2) {
    static const std::vector<T> v[2] = {{(T)0, (T)1, (T)-1, (T)-0.0, (T)64, (T)-3.5, (T)33.5, (T)-63}, {(T)0, (T)1, (T)-1, (T)-0.0, (T)2, (T)3, (T)0.5, (T)-0.5, (T)64, (T)-64, (T)20.5, (T)50, (T)-50, (T)100}};
    return v[level];
  } else if constexpr (kFloat<T>) {
    static const std::vector<T> v[2] = {{0, 1, -1, (T)-0.0, 65536, -3.5, 1024.25, -65535}, {0, 1, -1, (T)-0.0, 2, 3, 0.25, -0.25, 65536, -65536, 1000.5, 40000, -40000, 131072}};
    return v[level];
  } else return alpha<T>(level);
}
template <class T> T big(int bg) { if constexpr (kFloat<T>) return bg == 2 ? (T)-7 : sizeof(T) == 2 ? (T)16 : (T)65536; else return bg == 2 ? hi_<T>() : lo_<T>(); }
template <class T> void reductions(int which) {
  const char* nm[] = {"Reduce", "MaskedReduce"};
  group<T>(nm[which], [&](auto d) HWY_ATTR {
    using D = decltype(d);
    const size_t N = Lanes(d);
    const u64 all = N == 64 ? ~0ull : (1ull << N) - 1;
    alignas(64) T a[64], o[64];
    u64 cnt = 0;
    const bool gar = g_gar;
    auto lanes = [&](const char* op, T e) {
      for (size_t i = 0; i < N; i++) if (!eqv(o[i], e)) { char x[64], y[64]; show(x, 64, o[i]); show(y, 64, e); EX_FAIL("%s: lane %zu is %s, expected %s", op, i, x, y); return; }
    };
    auto scalar = [&](const char* op, T g, T e) { if (!eqv(g, e)) { char x[64], y[64]; show(x, 64, g); show(y, 64, e); EX_FAIL("%s returned %s, expected %s", op, x, y); } };
    auto go = [&](bool sums) HWY_ATTR {
      cnt++;
      const auto w = want(a, all, N);
      const auto v = ldg(d, a, gar);
      if (sums && w.sum_ok) {
        StoreU(SumOfLanes(d, v), d, o);
        lanes("SumOfLanes", w.sum);
        scalar("ReduceSum", ReduceSum(d, v), w.sum);
      }
      if (w.mm_ok) {
        StoreU(MinOfLanes(d, v), d, o);
        lanes("MinOfLanes", w.mn);
        scalar("ReduceMin", ReduceMin(d, v), w.mn);
        StoreU(MaxOfLanes(d, v), d, o);
        lanes("MaxOfLanes", w.mx);
        scalar("ReduceMax", ReduceMax(d, v), w.mx);
      }
    };
    auto goM = [&](u64 m) HWY_ATTR {
      cnt++;
      const auto w = want(a, m, N);
      const auto v = ldg(d, a, gar);
      using TU = MakeUnsigned<T>;
      const RebindToUnsigned<D> du;
      alignas(64) TU x[64];
      for (size_t i = 0; i < N; i++) x[i] = m >> i & 1 ? (TU)~(TU)0 : 0;
      const auto M = MaskFromVec(BitCast(d, ldg(du, x, gar, 0xFF)));
      if (w.sum_ok) scalar("MaskedReduceSum", MaskedReduceSum(d, M, v), w.sum);
      if (w.mm_ok) {
        scalar("MaskedReduceMin", MaskedReduceMin(d, M, v), w.mn);
        scalar("MaskedReduceMax", MaskedReduceMax(d, M, v), w.mx);
      }
    };
    auto bgs = [&](int bg) {
      for (size_t i = 0; i < N; i++) a[i] = bg == 0 ? T(0) : bg == 1 ? (T)(kFloat<T> ? (T)i + 1 : (T)((X)i * 37 + 3)) : big<T>(bg);
    };
    if (which == 0) {
      const auto& S = rvals<T>(0);
      const auto& L = rvals<T>(1);
      if (N <= 4) {
        u64 tot = 1;
        for (size_t i = 0; i < N; i++) tot *= S.size();
        for (u64 t = 0; t < tot; t++) {
          u64 u = t;
          for (size_t i = 0; i < N; i++) { a[i] = S[u % S.size()]; u /= S.size(); }
          ex::at("N=%zu tuple %llu%s", N, (unsigned long long)t, gar ? " garbage beyond" : "");
          go(true);
          if (ex::many()) return;
        }
      }
      for (int bg = 0; bg < 4; bg++) {
        bgs(bg);
        go(true);
        for (size_t p = 0; p < N; p++) {
          const T old = a[p];
          for (T x : L) { a[p] = x; ex::at("N=%zu background %d lane %zu%s", N, bg, p, gar ? " garbage beyond" : ""); go(true); }
          if (kFloat<T>) for (T x : alpha<T>(1)) { a[p] = x; ex::at("N=%zu background %d lane %zu%s", N, bg, p, gar ? " garbage beyond" : ""); go(bg == 0); }
          for (size_t q = 0; q < p; q++) {
            const T oq = a[q];
            for (T x : S) for (T y : S) { a[p] = x; a[q] = y; ex::at("N=%zu background %d lanes %zu,%zu%s", N, bg, q, p, gar ? " garbage beyond" : ""); go(true); }
            a[q] = oq;
            if (ex::many()) return;
          }
          a[p] = old;
        }
      }
    } else {
      std::vector<u64> ms;
      if (N <= 16) for (u64 m = 1; m <= all; m++) ms.push_back(m);
      else {
        for (size_t i = 0; i < N; i++) for (size_t j = i; j < N; j++) { ms.push_back((all >> (N - 1 - j)) & (all << i)); ms.push_back(1ull << i | 1ull << j); if (i || j + 1 < N) ms.push_back(all & ~(1ull << i | 1ull << j)); }
        for (u64 p : {0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull, 0x1248124812481248ull, 0x8001800180018001ull}) { ms.push_back(p & all); ms.push_back(~p & all); }
      }
      for (int bg = 0; bg < (kFloat<T> ? 6 : 4); bg++) for (int inv = 0; inv < 2; inv++) {
        bgs(bg);
        if (bg >= 4) {  // the masked lanes are all infinite, or the others are
          T in = 0;
          if constexpr (kFloat<T>) in = GetLane(Inf(d));
          for (size_t i = 0; i < N; i++) a[i] = inv && i % 3 == 0 ? (T)1 : bg == 4 ? in : (T)-in;
        } else
        if (inv && bg == 1) for (size_t i = 0; i < N; i++) a[i] = (T)(0 - a[i]);
        else if (inv) for (size_t i = 0; i < N; i++) a[i] = (i * 5) % 7 < 3 ? (T)(kFloat<T> ? (T)-9 - (T)i : (T)(100 + i)) : a[i];
        for (u64 m : ms) {
          ex::at("N=%zu background %d%s mask %llx%s", N, bg, inv ? "'" : "", (unsigned long long)m, gar ? " garbage beyond" : "");
          goM(m);
          if (ex::many()) return;
        }
      }
    }
    ex::add(cnt, cnt);
  });
}
}  // namespace

void all() {
#if PART == 0
  reductions<u8>(0); reductions<i8>(0); reductions<u16>(0); reductions<i16>(0); reductions<u32>(0); reductions<i32>(0);
#elif PART == 1
  reductions<u64>(0); reductions<i64>(0); reductions<f32>(0); reductions<f64>(0);
  reductions<u8>(1); reductions<i8>(1); reductions<u16>(1); reductions<i16>(1); reductions<u32>(1); reductions<i32>(1);
  reductions<u64>(1); reductions<i64>(1); reductions<f32>(1); reductions<f64>(1);
#if HWY_HAVE_FLOAT16
  reductions<float16_t>(0); reductions<float16_t>(1);
#endif
#elif PART == 2
  G<SumsOf2_, u8, i8, u16, i16, u32, i32, f32, float16_t>();
  G<SumsOf8_, u8, i8>();
  G<WidenMulPairwiseAdd_, i16, bfloat16_t>();
  G<SatWidenMulPairwiseAdd_, i8>();
  G<SatWidenMulAccumFixedPoint_, i16>();
  G<RearrangeToOddPlusEven_, u16, i16, bfloat16_t>();
  G<RearrangeTwice_, u16, i16, bfloat16_t>();
  G<ReorderWidenMulAccumulate_, u16, i16>();
  G<ReorderWidenMulAccumulateF, bfloat16_t>();
#if HWY_TARGET != HWY_SCALAR
  G<WidenMulPairwiseAdd_, u16>();
  G<SumsOf4_, u8, i8, u16, i16>();
  G<SumsOf8AbsDiff_, u8, i8>();
  G<MaskedWidenMulPairwiseAdd_, u16, i16, bfloat16_t>();
  G<SatWidenMulPairwiseAccumulate_, i16>();
  G<MulEvenAdd_, bfloat16_t>(); G<MulOddAdd_, bfloat16_t>();
  G<SumOfMulQuadAccumulate_, u8, i8, u16, i16>(); G<SumOfMulQuadAccumulateUI, i8>();
#endif
#elif PART == 3
#if HWY_TARGET != HWY_SCALAR
  G<WidenMulAccumulateLow, u8, i8, u16, i16, u32, i32>(); G<WidenMulAccumulateHigh, u8, i8, u16, i16, u32, i32>();
  G<PairwiseAdd_, ALLH_>(); G<PairwiseSub_, ALLH_>(); G<PairwiseAdd128_, ALLH_>(); G<PairwiseSub128_, ALLH_>();
#endif
#elif PART == 4
#if HWY_TARGET != HWY_SCALAR
  abs8<u8>(); abs8<i8>();
  adjb<u8, 0>(); adjb<u8, 1>(); adjb<i8, 0>(); adjb<i8, 1>();
#endif
#elif PART >= 5
#if HWY_TARGET != HWY_SCALAR
  shufs<u8, (PART - 5) * 64>(std::make_integer_sequence<int, 64>());
  shufs<i8, (PART - 5) * 64>(std::make_integer_sequence<int, 64>());
#endif
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
