// C24: dot products, matrix-vector products and the unroller: every length, each
// element's contribution by itself, exactly representable sums, guard pages.
#include <algorithm>
#include <cmath>
#include "simd.h"
#if PART <= 1
#include <hwy/contrib/dot/dot-inl.h>
#elif PART == 2 || PART == 3
#include <hwy/contrib/matvec/matvec-inl.h>
// Needed by the auto-tuner of the thread pool.
namespace hwy { void VQSort(double* p, size_t n, SortAscending) { std::sort(p, p + n); } }
#else
#include <hwy/contrib/unroller/unroller-inl.h>
#endif
HWY_BEFORE_NAMESPACE();
namespace {
using hwy::ConvertScalarTo;
#define RET_MANY if (ex::many()) return
template <class T> T num(double v) { return ConvertScalarTo<T>((float)v); }
template <> double num<double>(double v) { return v; }
template <> i16 num<i16>(double v) { return (i16)v; }
template <class T> double dbl(T v) { return (double)ConvertScalarTo<float>(v); }
template <> double dbl<double>(double v) { return v; }
template <> double dbl<i16>(i16 v) { return v; }
template <> double dbl<i32>(i32 v) { return v; }

template <class T> struct Arr {
  ex::Guard g{16384};
  T* at(size_t n, int off) {  // off < 0: at the start of the page
    for (size_t i = 0; i < 16384; i += 8) *(u64*)(g.begin() + i) = 0x7FF8FFFF7FC1FFFFull;  // NaN for all types
    return off < 0 ? (T*)g.begin() : (T*)g.end() - n - off;
  }
};
#if PART <= 1
template <class A, class B, class D, int kA> HWY_NOINLINE void dots(D d, const char* dn) {
  const size_t N = hn::Lanes(d);
  char nm[120];
  snprintf(nm, sizeof nm, "Dot %s*%s %s assumptions %d", tname<A>(), tname<B>(), dn, kA);
  if (!ex::enter(nm)) return;
  static Arr<A> ra;
  static Arr<B> rb;
  constexpr bool f16 = std::is_same<A, float16_t>::value, wide = std::is_same<A, f32>::value || std::is_same<A, f64>::value;
  const size_t top = ex::thorough() ? 17 * N + 5 : 9 * N + 5;
  for (size_t n = 0; n <= top; n++) {
    if ((kA & hn::Dot::kAtLeastOneVector) && n < N) continue;
    if ((kA & hn::Dot::kMultipleOfVector) && n % N) continue;
    const size_t padded = kA & hn::Dot::kPaddedToVector ? (n + N - 1) / N * N : n;
    for (int off = -1; off < (n > 3 * N ? 2 : 4); off++) {
      A* a = ra.at(padded, off);
      B* b = rb.at(padded, off < 0 ? -1 : off == 2 ? 1 : off);
      auto go = [&](double want, const char* what) {
        ex::add();
        const double got = dbl(hn::Dot::Compute<kA>(d, (const A*)a, (const B*)b, n));
        if (got != want && !(want != want && got != got)) EX_FAIL("%s: got %.9g, should be %.9g", what, got, want);
      };
      for (size_t i = 0; i < n; i++) a[i] = num<A>(0), b[i] = num<B>(0);
      ex::at("n %zu placement %d zeros", n, off);
      go(0, "zeros");
      if (off <= 0 || n < 70) for (size_t i = 0; i < n; i++) {
        ex::at("n %zu placement %d only element %zu", n, off, i);
        a[i] = num<A>(3), b[i] = num<B>(-5);
        go(-15, "one product");
        if (off == 0) {
          for (size_t j = 0; j < n; j++) b[j] = num<B>((double)(j % 15) + 1);
          go(3.0 * (double)(i % 15 + 1), "one element of a");
          for (size_t j = 0; j < n; j++) a[j] = num<A>((double)(j % 13) + 1), b[j] = num<B>(0);
          b[i] = num<B>(2);
          go(2.0 * (double)(i % 13 + 1), "one element of b");
          for (size_t j = 0; j < n; j++) a[j] = num<A>(0);
          if constexpr (!std::is_integral<A>::value) {
            b[i] = num<B>(1), a[i] = from<A>((Bits<A>)((std::is_same<A, f64>::value ? 0x7FFull << 52 : sizeof(A) == 4 ? 0x7F800000 : f16 ? 0x7C00 : 0x7F80)));
            go((double)__builtin_inff(), "infinity");
          }
        }
        a[i] = num<A>(0), b[i] = num<B>(0);
        RET_MANY;
      }
      // exactly representable sums
      for (int pat = 0; pat < 4; pat++) {
        double want = 0;
        for (size_t i = 0; i < n; i++) {
          const double x = f16 ? (double)((i * 7 + pat) % 3) - 1 : (double)((i * 37 + pat * 11) % 127) - 63, y = f16 ? (double)((i * 5) % 3) - (pat & 1) : (double)((i * 53 + pat) % 101) - 50;
          a[i] = num<A>(x), b[i] = num<B>(y);
          want += x * y;
        }
        ex::at("n %zu placement %d exact sums %d", n, off, pat);
        go(want, "exact sum");
      }
      if (std::is_same<A, i16>::value && n && off == 0) {
        const i16 ext[] = {-32768, 32767, -1, 1, 0};
        for (i16 u : ext) for (i16 v : ext) {
          for (size_t i = 0; i < n; i++) a[i] = num<A>(i % 7 ? 0 : (i / 7) & 1 ? -u - (u == -32768) : u), b[i] = num<B>(v);
          i64 want = 0;
          i64 hi = 0;
          for (size_t i = 0; i < n; i++) want += (i64)(i16)dbl(a[i]) * (i64)(i16)dbl(b[i]), hi = std::max<i64>(hi, std::abs(want));
          ex::at("n %zu extremes %d %d", n, u, v);
          if (hi < (1ll << 30)) go((double)want, "exact sum");
        }
      }
      if (wide && n && off == 0) {  // rounding only
        double want = 0, mag = 0;
        for (size_t i = 0; i < n; i++) {
          const double x = 1.0 / (double)(i + 3), y = (i & 1 ? -1.0 : 1.0) / (double)(2 * i + 7);
          a[i] = num<A>(x), b[i] = num<B>(y);
          want += dbl(a[i]) * dbl(b[i]), mag += std::fabs(dbl(a[i]) * dbl(b[i]));
        }
        ex::at("n %zu rounded sums", n);
        ex::add();
        const double got = dbl(hn::Dot::Compute<kA>(d, (const A*)a, (const B*)b, n));
        const double tol = mag * (double)(n + 2) * (std::is_same<A, f64>::value ? 0x1p-51 : 0x1p-23);
        if (!(std::fabs(got - want) <= tol)) EX_FAIL("got %.17g, should be %.17g within %.3g", got, want, tol);
      }
      RET_MANY;
    }
  }
  ex::sample("all lengths to %zu, each element's contribution alone", top);
  ex::group_end();
}
template <class A, class B, class D> void flags(D d, const char* dn) {
  dots<A, B, D, 0>(d, dn);
  dots<A, B, D, 1>(d, dn);
  dots<A, B, D, 2>(d, dn);
  dots<A, B, D, 3>(d, dn);
  dots<A, B, D, 4>(d, dn);
  dots<A, B, D, 5>(d, dn);
  dots<A, B, D, 6>(d, dn);
  dots<A, B, D, 7>(d, dn);
}
template <class A, class B, class T> void sizes() {
  flags<A, B>(hn::ScalableTag<T>(), "full");
  constexpr size_t kMin = sizeof(A) == 2 && !std::is_same<A, float16_t>::value ? 2 : 1;
  if constexpr (HWY_MAX_LANES_D(hn::ScalableTag<T>) > 4) flags<A, B>(hn::CappedTag<T, 4>(), "4 lanes");
  if constexpr (HWY_MAX_LANES_D(hn::ScalableTag<T>) > kMin) flags<A, B>(hn::CappedTag<T, kMin>(), "least lanes");
}
void all() {
#if PART == 0
  sizes<f32, f32, f32>();
#if HWY_HAVE_FLOAT64
  sizes<f64, f64, f64>();
#endif
#else
#if HWY_HAVE_FLOAT16
  sizes<float16_t, float16_t, float16_t>();
#endif
  sizes<f32, bfloat16_t, f32>();
#if HWY_TARGET != HWY_SCALAR
  sizes<bfloat16_t, bfloat16_t, bfloat16_t>();
  sizes<i16, i16, i16>();
#endif
#endif
}
#elif PART == 2 || PART == 3
template <class M, class V, class R, size_t kOuter, size_t kInner, bool kAdd> HWY_NOINLINE void matvec() {
  char nm[100];
  snprintf(nm, sizeof nm, "MatVec %s*%s %zux%zu%s", tname<M>(), tname<V>(), kOuter, kInner, kAdd ? " add" : "");
  if (!ex::enter(nm)) return;
  static ex::Guard gm(size_t(1) << 19), gv(8192), ga(8192), go(16384);
  static hwy::ThreadPool p0(0), p1(1), p3(3);
  hwy::ThreadPool* const pools[] = {&p0, &p1, &p3};
  constexpr bool narrow = sizeof(M) == 2;
  auto mval = [](size_t r, size_t c) { return (double)((r * 31 + c * 7 + (r ^ c)) % (narrow ? 251 : 8191)) - (narrow ? 125 : 4095); };
  for (int place = 0; place < 2; place++) for (size_t pi = 0; pi < 3; pi++) {
    hwy::ThreadPool& pool = *pools[pi];
    M* m = place ? (M*)gm.begin() : (M*)gm.end() - kOuter * kInner;
    V* v = place ? (V*)gv.begin() : (V*)gv.end() - kInner;
    V* a = place ? (V*)ga.begin() : (V*)ga.end() - kOuter;
    const size_t ob = (kOuter * sizeof(R) + 63) / 64 * 64;  // `out` is aligned
    R* out = place ? (R*)go.begin() : (R*)(go.end() - ob);
    for (size_t r = 0; r < kOuter; r++) for (size_t c = 0; c < kInner; c++) m[r * kInner + c] = num<M>(mval(r, c));
    for (size_t r = 0; r < kOuter; r++) a[r] = num<V>((double)(r % 97) - 48);
    auto run = [&] {
      ex::add();
      memset(go.begin(), 0x5C, 16384);
      if constexpr (std::is_same<M, R>::value) {
        if constexpr (kAdd) hn::MatVecAdd<kOuter, kInner>((const R*)m, (const R*)v, (const R*)a, out, pool);
        else hn::MatVec<kOuter, kInner>((const R*)m, (const R*)v, out, pool);
      } else {
        if constexpr (kAdd) hn::MatVecAdd<kOuter, kInner>((const M*)m, (const V*)v, (const V*)a, out, pool);
        else hn::MatVec<kOuter, kInner>((const M*)m, (const V*)v, out, pool);
      }
      for (u8* q = go.begin(); q < (u8*)go.end(); q++) if ((q < (u8*)out || q >= (u8*)(out + kOuter)) && *q != 0x5C) { EX_FAIL("wrote outside the output"); break; }
    };
    auto add = [&](size_t r) { return kAdd ? dbl(a[r]) : 0.0; };
    for (size_t c = 0; c < kInner; c++) {
      if (pi && c != kInner / 2) continue;
      for (size_t i = 0; i < kInner; i++) v[i] = num<V>(i == c ? 1 : 0);
      ex::at("pool %zu place %d only column %zu", pi, place, c);
      run();
      for (size_t r = 0; r < kOuter; r++) if (dbl(out[r]) != mval(r, c) + add(r)) { EX_FAIL("row %zu: got %.9g, should be %.9g", r, dbl(out[r]), mval(r, c) + add(r)); break; }
      RET_MANY;
    }
    // sums of +-1 and 0: exact in all types
    for (size_t r = 0; r < kOuter; r++) for (size_t c = 0; c < kInner; c++) m[r * kInner + c] = num<M>((double)((r + c * 5) % 3) - 1);
    for (size_t i = 0; i < kInner; i++) v[i] = num<V>((double)(i * 7 % 4) - 1);
    ex::at("pool %zu place %d sums", pi, place);
    run();
    for (size_t r = 0; r < kOuter; r++) {
      double want = add(r);
      for (size_t c = 0; c < kInner; c++) want += ((double)((r + c * 5) % 3) - 1) * ((double)(c * 7 % 4) - 1);
      if (dbl(out[r]) != want) { EX_FAIL("row %zu: got %.9g, should be %.9g", r, dbl(out[r]), want); break; }
    }
  }
  ex::group_end();
}
template <class M, class V, class R, size_t kOuter, size_t... kInner> void inners() {
  (matvec<M, V, R, kOuter, kInner, (kInner & 1) != 0>(), ...);
}
template <class M, class V, class R, size_t kInner, size_t... kOuter> void outers() {
  (matvec<M, V, R, kOuter, kInner, false>(), ...);
  (matvec<M, V, R, kOuter, kInner, true>(), ...);
}
template <class M, class V, class R> void mats() {
  inners<M, V, R, 35, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 28, 31, 32, 40, 47, 48, 49, 63, 64, 65, 72, 96, 127, 128, 129, 160>();
  outers<M, V, R, 37, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100>();
  outers<M, V, R, 16, 8, 32, 40>();
}
void all() {
#if PART == 2
  mats<f32, f32, f32>();
#if HWY_HAVE_FLOAT64
  mats<f64, f64, f64>();
#endif
#else
#if HWY_HAVE_FLOAT16
  mats<float16_t, float16_t, float16_t>();
#endif
#if HWY_TARGET != HWY_SCALAR && HWY_MAX_BYTES >= 16
  mats<bfloat16_t, f32, f32>();
  mats<bfloat16_t, bfloat16_t, f32>();
#endif
#endif
}
#else
// ------------------------------------------------------------------ unroller
template <class T> struct Mul2 : hn::UnrollerUnit2D<Mul2<T>, T, T, T> {
  using TT = hn::ScalableTag<T>;
  hn::Vec<TT> Func(ptrdiff_t, const hn::Vec<TT> x0, const hn::Vec<TT> x1, const hn::Vec<TT>) { return hn::Mul(x0, x1); }
};
template <class F, class O> struct Conv : hn::UnrollerUnit<Conv<F, O>, F, O> {
  using Base = hn::UnrollerUnit<Conv<F, O>, F, O>;
  using DF = hn::Rebind<F, typename Base::LargerD>;
  using DO = hn::Rebind<O, typename Base::LargerD>;
  hn::Vec<DO> Func(ptrdiff_t, const hn::Vec<DF> x, const hn::Vec<DO>) {
    DO d;
    if constexpr (sizeof(F) > sizeof(O)) return hn::DemoteTo(d, x);
    else if constexpr (sizeof(F) < sizeof(O)) return hn::PromoteTo(d, x);
    else return hn::ConvertTo(d, x);
  }
};
// Adds the index, so that the position given to Func is observed.
template <class T> struct Idx : hn::UnrollerUnit<Idx<T>, T, T> {
  using TT = hn::ScalableTag<T>;
  hn::Vec<TT> Func(ptrdiff_t idx, const hn::Vec<TT> x, const hn::Vec<TT>) { return hn::Add(x, hn::Iota(TT(), (T)idx)); }
};
template <class T> struct Find : hn::UnrollerUnit<Find<T>, T, MakeSigned<T>> {
  using TI = MakeSigned<T>;
  using Base = hn::UnrollerUnit<Find<T>, T, TI>;
  using D = hn::CappedTag<T, Base::MaxUnitLanes()>;
  D d;
  hn::RebindToSigned<D> di;
  T x;
  explicit Find(T v) : x(v) {}
  hn::Vec<hn::RebindToSigned<D>> Func(ptrdiff_t idx, const hn::Vec<D> v, const hn::Vec<hn::RebindToSigned<D>> y) {
    const intptr_t f = hn::FindFirstTrue(d, hn::Eq(v, hn::Set(d, x)));
    return f >= 0 ? hn::Set(di, (TI)(idx + f)) : y;
  }
  hn::Vec<D> other() { return hn::Set(d, (T)(x + 1)); }
  hn::Vec<D> X0InitImpl() { return other(); }
  hn::Vec<hn::RebindToSigned<D>> YInitImpl() { return hn::Set(di, (TI)-1); }
  hn::Vec<D> MaskLoadImpl(const ptrdiff_t idx, const T* from, const ptrdiff_t places) {
    auto mask = hn::FirstN(d, (size_t)places);
    auto neg = hn::Not(hn::FirstN(d, (size_t)(places + (ptrdiff_t)Base::ActualLanes())));
    if (places < 0) mask = neg;
    return hn::IfThenElse(mask, hn::MaskedLoad(mask, d, from + idx), other());
  }
  bool StoreAndShortCircuitImpl(const ptrdiff_t, TI* to, const hn::Vec<hn::RebindToSigned<D>> v) {
    to[0] = hn::GetLane(v);
    return to[0] == -1;
  }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, TI* to, const hn::Vec<hn::RebindToSigned<D>> v, const ptrdiff_t) {
    to[0] = hn::GetLane(v);
    return 1;
  }
};
template <class T, class D> struct NoStore : D {
  using TT = hn::ScalableTag<T>;
  bool StoreAndShortCircuitImpl(const ptrdiff_t, T*, const hn::Vec<TT>) { return true; }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, T*, const hn::Vec<TT>, const ptrdiff_t) { return 0; }
};
template <class T> struct Sum : hn::UnrollerUnit<Sum<T>, T, T> {
  using TT = hn::ScalableTag<T>;
  hn::Vec<TT> Func(ptrdiff_t, const hn::Vec<TT> x, const hn::Vec<TT> y) { return hn::Add(x, y); }
  bool StoreAndShortCircuitImpl(const ptrdiff_t, T*, const hn::Vec<TT>) { return true; }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, T*, const hn::Vec<TT>, const ptrdiff_t) { return 0; }
  ptrdiff_t ReduceImpl(const hn::Vec<TT> x, T* to) { *to = hn::ReduceSum(TT(), x); return 1; }
  void ReduceImpl(const hn::Vec<TT> a, const hn::Vec<TT> b, const hn::Vec<TT> c, hn::Vec<TT>* y) { *y = hn::Add(hn::Add(*y, a), hn::Add(b, c)); }
};
template <class T> struct Min : hn::UnrollerUnit<Min<T>, T, T> {
  using Base = hn::UnrollerUnit<Min<T>, T, T>;
  using TT = hn::ScalableTag<T>;
  TT d;
  hn::Vec<TT> Func(ptrdiff_t, const hn::Vec<TT> x, const hn::Vec<TT> y) { return hn::Min(x, y); }
  hn::Vec<TT> YInitImpl() { return hn::Set(d, hwy::HighestValue<T>()); }
  hn::Vec<TT> MaskLoadImpl(const ptrdiff_t idx, const T* from, const ptrdiff_t places) {
    auto mask = hn::FirstN(d, (size_t)places);
    auto neg = hn::Not(hn::FirstN(d, (size_t)(places + (ptrdiff_t)Base::ActualLanes())));
    if (places < 0) mask = neg;
    return hn::MaskedLoadOr(YInitImpl(), mask, d, from + idx);
  }
  bool StoreAndShortCircuitImpl(const ptrdiff_t, T*, const hn::Vec<TT>) { return true; }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, T*, const hn::Vec<TT>, const ptrdiff_t) { return 0; }
  ptrdiff_t ReduceImpl(const hn::Vec<TT> x, T* to) { *to = hn::ReduceMin(d, x); return 1; }
  void ReduceImpl(const hn::Vec<TT> a, const hn::Vec<TT> b, const hn::Vec<TT> c, hn::Vec<TT>* y) { *y = hn::Min(hn::Min(*y, a), hn::Min(b, c)); }
};
template <class T> struct Dot2 : hn::UnrollerUnit2D<Dot2<T>, T, T, T> {
  using TT = hn::ScalableTag<T>;
  hn::Vec<TT> Func(ptrdiff_t, const hn::Vec<TT> x0, const hn::Vec<TT> x1, const hn::Vec<TT> y) { return hn::MulAdd(x0, x1, y); }
  bool StoreAndShortCircuitImpl(const ptrdiff_t, T*, const hn::Vec<TT>) { return true; }
  ptrdiff_t MaskStoreImpl(const ptrdiff_t, T*, const hn::Vec<TT>, const ptrdiff_t) { return 0; }
  ptrdiff_t ReduceImpl(const hn::Vec<TT> x, T* to) { *to = hn::ReduceSum(TT(), x); return 1; }
  void ReduceImpl(const hn::Vec<TT> a, const hn::Vec<TT> b, const hn::Vec<TT> c, hn::Vec<TT>* y) { *y = hn::Add(hn::Add(*y, a), hn::Add(b, c)); }
};
struct Bufs {
  ex::Guard gx{8192}, gz{8192}, gy{8192};
  u8 shadow[8192];
  template <class T> T* x(size_t n, int off) { memset(gx.begin(), 0x61, 8192); return off < 0 ? (T*)gx.begin() : (T*)gx.end() - n - off; }
  template <class T> T* z(size_t n, int off) { memset(gz.begin(), 0x61, 8192); return off < 0 ? (T*)gz.begin() : (T*)gz.end() - n - off; }
  template <class T> T* y(size_t n, int off) { for (int i = 0; i < 8192; i++) gy.begin()[i] = (u8)(0xB3 + i); memcpy(shadow, gy.begin(), 8192); return off < 0 ? (T*)gy.begin() : (T*)gy.end() - n - off; }
  void outside(void* y, size_t bytes) {
    const size_t a = (u8*)y - gy.begin(), e = a + bytes;
    if (memcmp(shadow, gy.begin(), a) || memcmp(shadow + e, gy.begin() + e, 8192 - e)) EX_FAIL("wrote outside the output");
  }
};
Bufs B;
template <class T> T xv(size_t i, int pat) { return (T)((i * 37 + pat * 5) % 113 + 1); }
template <class F> void each(size_t N, const char* nm, F f) {
  if (!ex::enter(nm)) return;
  const size_t top = ex::thorough() ? 18 * N + 5 : 9 * N + 5;
  for (size_t n = 0; n <= top; n++) for (int off = -1; off < 3; off++) {
    ex::at("n %zu placement %d", n, off);
    ex::add();
    f(n, off);
    if (ex::many()) break;
  }
  ex::sample("all lengths to %zu", top);
  ex::group_end();
}
template <class T> HWY_NOINLINE void maps() {
  const size_t N = hn::Lanes(hn::ScalableTag<T>());
  char nm[80];
  snprintf(nm, sizeof nm, "Unroller multiply %s", tname<T>());
  each(N, nm, [&](size_t n, int off) {
    T *x = B.x<T>(n, off), *z = B.z<T>(n, off < 0 ? off : 2 - off), *y = B.y<T>(n, off);
    for (size_t i = 0; i < n; i++) x[i] = xv<T>(i, 0), z[i] = xv<T>(i, 3);
    Mul2<T> u;
    hn::Unroller(u, x, z, y, (ptrdiff_t)n);
    for (size_t i = 0; i < n; i++) if (y[i] != (T)(x[i] * z[i])) { EX_FAIL("element %zu differs", i); break; }
    B.outside(y, n * sizeof(T));
  });
  snprintf(nm, sizeof nm, "Unroller index %s", tname<T>());
  each(N, nm, [&](size_t n, int off) {
    T *x = B.x<T>(n, off), *y = B.y<T>(n, off);
    for (size_t i = 0; i < n; i++) x[i] = xv<T>(i, 1);
    Idx<T> u;
    hn::Unroller(u, (const T*)x, y, (ptrdiff_t)n);
    for (size_t i = 0; i < n; i++) if (y[i] != (T)(x[i] + (T)i)) { EX_FAIL("element %zu differs", i); break; }
    B.outside(y, n * sizeof(T));
  });
  snprintf(nm, sizeof nm, "Unroller sum %s", tname<T>());
  each(N, nm, [&](size_t n, int off) {
    T *x = B.x<T>(n, off), *y = B.y<T>(1, off);
    for (size_t p = 0; p <= n; p++) {  // p == n: all
      T want = 0;
      for (size_t i = 0; i < n; i++) x[i] = p == n ? xv<T>(i, 2) : (T)(i == p ? 5 : 0), want = (T)(want + x[i]);
      Sum<T> u;
      hn::Unroller(u, (const T*)x, y, (ptrdiff_t)n);
      if (*y != want) { EX_FAIL("only element %zu: got %g, should be %g", p, (double)*y, (double)want); break; }
    }
    B.outside(y, sizeof(T));
  });
  snprintf(nm, sizeof nm, "Unroller min %s", tname<T>());
  each(N, nm, [&](size_t n, int off) {
    T *x = B.x<T>(n, off), *y = B.y<T>(1, off);
    for (size_t p = 0; p < n; p++) {
      for (size_t i = 0; i < n; i++) x[i] = (T)(i == p ? 3 : 9 + (T)(i & 1));
      Min<T> u;
      hn::Unroller(u, (const T*)x, y, (ptrdiff_t)n);
      if (*y != (T)3) { EX_FAIL("least element at %zu: got %g", p, (double)*y); break; }
    }
    if (!n) { Min<T> u; hn::Unroller(u, (const T*)x, y, 0); }
    B.outside(y, sizeof(T));
  });
  if constexpr (std::is_floating_point<T>::value) {
    snprintf(nm, sizeof nm, "Unroller dot %s", tname<T>());
    each(N, nm, [&](size_t n, int off) {
      T *x = B.x<T>(n, off), *z = B.z<T>(n, off < 0 ? off : 2 - off), *y = B.y<T>(1, off);
      for (size_t p = 0; p <= n; p++) {
        double want = 0;
        for (size_t i = 0; i < n; i++) x[i] = p == n || i == p ? xv<T>(i, 2) : (T)0, z[i] = xv<T>(i, 4), want += (double)x[i] * (double)z[i];
        Dot2<T> u;
        hn::Unroller(u, x, z, y, (ptrdiff_t)n);
        if ((double)*y != want) { EX_FAIL("only element %zu: got %g, should be %g", p, (double)*y, want); break; }
      }
      B.outside(y, sizeof(T));
    });
  }
  if constexpr (sizeof(T) > 1) {
    typedef MakeSigned<T> TI;
    snprintf(nm, sizeof nm, "Unroller find %s", tname<T>());
    each(N, nm, [&](size_t n, int off) {
      if (!n) return;
      T* x = B.x<T>(n, off);
      TI* y = B.y<TI>(1, off);
      for (size_t p = 0; p <= n; p++) for (size_t q : {p, p + 1, p + N, n - 1}) {
        if (q < p || (q >= n && q != p)) continue;
        for (size_t i = 0; i < n; i++) x[i] = (T)(i == p || i == q ? 7 : 1 + (i & 1));
        Find<T> u((T)7);
        *y = 99;
        hn::Unroller(u, (const T*)x, y, (ptrdiff_t)n);
        if (*y != (p < n ? (TI)p : (TI)-1)) { EX_FAIL("found at %lld, should be %lld", (long long)*y, (long long)(p < n ? (TI)p : (TI)-1)); return; }
      }
      B.outside(y, sizeof(TI));
    });
  }
}
template <class F, class O> HWY_NOINLINE void conv() {
  typedef Conv<F, O> U;
  char nm[80];
  snprintf(nm, sizeof nm, "Unroller convert %s to %s", tname<F>(), tname<O>());
  each(U::ActualLanes(), nm, [&](size_t n, int off) {
    F* x = B.x<F>(n, off);
    O* y = B.y<O>(n, off);
    for (size_t i = 0; i < n; i++) x[i] = xv<F>(i, 0);
    U u;
    hn::Unroller(u, (const F*)x, y, (ptrdiff_t)n);
    for (size_t i = 0; i < n; i++) if (y[i] != (O)x[i]) { EX_FAIL("element %zu differs", i); break; }
    B.outside(y, n * sizeof(O));
  });
}
void all() {
  maps<f32>();
  maps<i32>();
#if HWY_HAVE_FLOAT64
  maps<f64>();
#endif
  maps<i16>();
  maps<u16>();
  conv<i32, f32>();
  conv<f32, i32>();
  conv<i16, i32>();
  conv<i32, i16>();
  conv<u8, i32>();
  conv<i32, u8>();
#if HWY_HAVE_FLOAT64
  conv<f32, f64>();
  conv<f64, f32>();
#endif
}
#endif
}  // namespace
HWY_AFTER_NAMESPACE();
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
