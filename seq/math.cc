// C25: math functions. f32: all patterns of sign, exponent and leading mantissa bits with
// several trailing patterns (thorough: all 2^32), against the double-precision C library;
// f64: every exponent with leading mantissa bits, and the neighbourhood of every constant
// and reduction boundary, against the 80-bit C library.
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <vector>
#include "simd.h"
#include <hwy/contrib/math/math-inl.h>
HWY_BEFORE_NAMESPACE();
namespace {
template <class T> struct Wide { typedef double t; };
template <> struct Wide<f64> { typedef long double t; };
template <class T> using W = typename Wide<T>::t;
// Error in units in the last place of the larger of the two.
template <class T> double ulps(T got, W<T> want) {
  if (got != got || want != want) return got != got && want != want ? 0 : 1e30;
  constexpr int kMax = sizeof(T) == 4 ? 128 : 1024, kMan = sizeof(T) == 4 ? 23 : 52, kMin = sizeof(T) == 4 ? -126 : -1022;
  const W<T> top = std::ldexp((W<T>)1, kMax);
  W<T> g = got, w = want;
  g = g > top ? top : g < -top ? -top : g, w = w > top ? top : w < -top ? -top : w;
  if (g == w) return 0;
  const W<T> m = std::max(std::fabs(g), std::fabs(w));
  int e;
  std::frexp(m, &e);
  e = std::min(std::max(e - 1, kMin), kMax - 1);
  return (double)(std::ldexp(std::fabs(g - w), kMan - e));
}
template <class T> struct Fn {
  const char* name;
  void (*vec)(const T* in, T* out, size_t n);
  W<T> (*ref)(W<T>);
  T lo, hi;
  bool open_lo, open_hi;
  double bound;
};
#define VEC1(NAME) template <class T> void v##NAME(const T* in, T* out, size_t n) { \
  const hn::ScalableTag<T> d; const size_t N = hn::Lanes(d); for (size_t i = 0; i < n; i += N) hn::StoreU(hn::Call##NAME(d, hn::LoadU(d, in + i)), d, out + i); }
#define FNS(X) X(Acos, acos) X(Acosh, acosh) X(Asin, asin) X(Asinh, asinh) X(Atan, atan) X(Atanh, atanh) X(Cos, cos) X(Exp, exp) X(Exp2, exp2) X(Expm1, expm1) \
  X(Log, log) X(Log10, log10) X(Log1p, log1p) X(Log2, log2) X(Sin, sin) X(Sinh, sinh) X(Tanh, tanh)
#define DEF(N, S) VEC1(N) template <class T> T r##N(T x) { return std::S(x); }
FNS(DEF)
template <class T> void vSinCosS(const T* in, T* out, size_t n) {
  const hn::ScalableTag<T> d;
  hn::Vec<decltype(d)> s, c;
  for (size_t i = 0; i < n; i += hn::Lanes(d)) hn::CallSinCos(d, hn::LoadU(d, in + i), s, c), hn::StoreU(s, d, out + i);
}
template <class T> void vSinCosC(const T* in, T* out, size_t n) {
  const hn::ScalableTag<T> d;
  hn::Vec<decltype(d)> s, c;
  for (size_t i = 0; i < n; i += hn::Lanes(d)) hn::CallSinCos(d, hn::LoadU(d, in + i), s, c), hn::StoreU(c, d, out + i);
}
template <class T> std::vector<Fn<T>> fns() {
  constexpr bool f = sizeof(T) == 4;
  const T M = f ? (T)FLT_MAX : (T)DBL_MAX;
#define F(N, LO, HI, OL, OH, B) {#N, v##N<T>, r##N<W<T>>, (T)(LO), (T)(HI), OL, OH, B}
  return {
      F(Acos, -1, 1, 0, 0, 2), F(Acosh, 1, M, 0, 0, 3), F(Asin, -1, 1, 0, 0, 2), F(Asinh, -M, M, 0, 0, 3), F(Atan, -M, M, 0, 0, 3),
      F(Atanh, -1, 1, 1, 1, 3), F(Cos, -39000, 39000, 0, 0, 3), F(Exp, -M, f ? 104 : 706, 0, 0, 1), F(Exp2, -M, f ? 128 : 1024, 0, 0, 2),
      F(Expm1, -M, f ? 104 : 706, 0, 0, 4), F(Log, 0, M, 1, 0, 4), F(Log10, 0, M, 1, 0, 2), F(Log1p, 0, M, 0, 0, 2), F(Log2, 0, M, 1, 0, 2),
      F(Sin, -39000, 39000, 0, 0, 3), F(Sinh, f ? -88.7228f : -709, f ? 88.7228f : 709, 0, 0, 4), F(Tanh, -M, M, 0, 0, 4),
      {"SinCos sine", vSinCosS<T>, rSin<W<T>>, -39000, 39000, 0, 0, f ? 3. : 1.}, {"SinCos cosine", vSinCosC<T>, rCos<W<T>>, -39000, 39000, 0, 0, f ? 3. : 1.}};
}
constexpr size_t kBlock = 4096;
template <class T> struct Runner {
  const Fn<T>& f;
  T in[kBlock + 64], out[kBlock + 64];
  size_t n = 0;
  double worst = 0;
  T where = 0;
  explicit Runner(const Fn<T>& g) : f(g) {}
  HWY_INLINE void put(Bits<T> b) {
    const T x = from<T>(b);
    if (!(x >= f.lo && x <= f.hi) || (f.open_lo && x == f.lo) || (f.open_hi && x == f.hi)) return;
    in[n++] = x;
    if (n == kBlock) flush();
  }
  void flush() {
    for (size_t i = n; i < n + 64; i++) in[i] = 1;
    memset((void*)out, 0xFF, sizeof out);
    f.vec(in, out, n);
    ex::add(n);
    for (size_t i = 0; i < n; i++) {
      const double e = ulps<T>(out[i], f.ref((W<T>)in[i]));
      if (e > worst) worst = e, where = in[i];
      if (e > f.bound + 0.501 && !ex::many()) {
        ex::at("x %.17g (%llx)", (double)in[i], (unsigned long long)bits(in[i]));
        EX_FAIL("error %.4g ulp: got %.17g, should be %.17g", e, (double)out[i], (double)f.ref((W<T>)in[i]));
      }
    }
    n = 0;
  }
};
// Values next to which branches or reductions change.
template <class T> const std::vector<T>& edges() {
  static std::vector<T> v;
  if (!v.empty()) return v;
  const long double pi = 3.14159265358979323846264338327950288L, ln2 = 0.693147180559945309417232121458176568L;
  for (int k = 0; k < 49700; k++) v.push_back((T)(pi / 4 * k));
  for (int k = 1; k < 2300; k++) v.push_back((T)(ln2 / 2 * k));
  for (int e = sizeof(T) == 4 ? -149 : -1074; e < (sizeof(T) == 4 ? 128 : 1024); e++)
    for (long double m : {1.0L, 1.41421356237309504880L, 1.5L}) v.push_back((T)ldexpl(m, e));
  for (int k = 1; k < 1100; k++) v.push_back((T)k), v.push_back((T)(k + 0.5L));
  for (long double c : {18.714973875L, 104.0L, 1000.0L, 706.0L, 709.0L, 88.7228L, 268435456.0L, 3.725290298461914e-9L, 2.0L, 150.0L, 1075.0L, 128.0L, 39000.0L, 0.41421356237309504880L,
                        0.346573590279972654L, 0.585786437626904951L, 2.718281828459045235L, 0.3678794411714423216L, 745.1332191019411L, 708.3964185322641L, 103.9720770839918L, 87.336544750553L})
    v.push_back((T)c);
  return v;
}
template <class T> HWY_NOINLINE void run(const Fn<T>& f) {
  char nm[60];
  snprintf(nm, sizeof nm, "%s %s", f.name, tname<T>());
  if (!ex::enter(nm)) return;
  static Runner<T>* r;
  r = new Runner<T>(f);
  if constexpr (sizeof(T) == 4) {
    if (ex::thorough()) {
      for (u64 b = 0; b < 1ull << 32; b++) r->put((u32)b);
    } else {
      for (u64 b = 0; b < 1ull << 32; b += 1u << 7) for (u32 t : {0u, 1u, 127u}) r->put((u32)b | t);
    }
  } else {
    const int k = ex::thorough() ? 36 : 43;
    const u64 mask = (1ull << k) - 1;
    u64 b = 0;
    do {
      for (u64 t : {(u64)0, (u64)1, mask, mask / 3, mask / 5 * 4}) r->put(b | t);
      b += 1ull << k;
    } while (b);
  }
  const Bits<T> top = (Bits<T>)1 << (sizeof(T) * 8 - 1);
  for (T c : edges<T>()) for (int o = -9; o <= 9; o++) r->put((Bits<T>)(bits(c) + o)), r->put((Bits<T>)(bits(c) + o) | top);
  r->flush();
  if (getenv("VF_ULP")) fprintf(stderr, "ULP %s %s %.4g at %.17g\n", hwy::TargetName(HWY_TARGET), nm, r->worst, (double)r->where);
  ex::sample("largest error %.3f ulp at %.17g, documented %g", r->worst, (double)r->where, f.bound);
  delete r;
  ex::group_end();
}
// Each lane's result depends only on that lane, for every vector size.
template <class T, int kCap> void vec_of(int which, const T* in, T* out) {
  const hn::CappedTag<T, kCap> d;
  hn::Vec<decltype(d)> s, c, x = hn::LoadU(d, in);
  int i = 0;
#define ONE(N, S) if (which == i++) return hn::StoreU(hn::Call##N(d, x), d, out);
  FNS(ONE)
  hn::CallSinCos(d, x, s, c);
  hn::StoreU(which == i ? s : c, d, out);
}
template <class T, int kCap> HWY_NOINLINE void lanes() {
  const size_t N = hn::Lanes(hn::CappedTag<T, kCap>());
  char nm[60];
  snprintf(nm, sizeof nm, "lanes %s %d", tname<T>(), kCap);
  if (!ex::enter(nm)) return;
  const T inf = (T)INFINITY, sp[] = {(T)NAN, inf, -inf, 0, -(T)0, std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min(), -1, (T)1e30, -(T)1e30, (T)0.5, (T)3, -(T)200};
  const T ord[] = {(T)0.25, (T)0.75, 1, (T)1.5, 2, 7, (T)38, -(T)0.25, -(T)0.75, -(T)3, (T)1e-5, (T)20};
  T a[64], o[64], w[64];
  const auto f = fns<T>();
  for (int k = 0; k < (int)f.size(); k++) for (T x : ord) {
    if (!(x >= f[k].lo && x <= f[k].hi)) continue;
    for (size_t i = 0; i < 64; i++) a[i] = x;
    f[k].vec(a, w, 64);
    for (T s : sp) for (size_t p = 0; p < N; p++) for (int inv = 0; inv < 2; inv++) {
      for (size_t i = 0; i < N; i++) a[i] = (i == p) != (inv != 0) ? s : x;
      ex::at("%s(%.9g) with %.9g in lane %zu%s", f[k].name, (double)x, (double)s, p, inv ? " swapped" : "");
      ex::add();
      vec_of<T, kCap>(k, a, o);
      for (size_t i = 0; i < N; i++) if (((i == p) == (inv != 0)) && !same(o[i], w[0])) { EX_FAIL("lane %zu is %.17g instead of %.17g", i, (double)o[i], (double)w[0]); break; }
      if (ex::many()) return ex::group_end();
    }
  }
  ex::sample("each lane special or alone");
  ex::group_end();
}
// Two arguments.
template <class T> HWY_NOINLINE void two(bool hyp) {
  typedef W<T> L;
  char nm[60];
  snprintf(nm, sizeof nm, "%s %s", hyp ? "Hypot" : "Atan2", tname<T>());
  if (!ex::enter(nm)) return;
  const hn::ScalableTag<T> d;
  const size_t N = hn::Lanes(d);
  std::vector<T> v;
  constexpr int kMan = sizeof(T) == 4 ? 23 : 52, kExp = sizeof(T) == 4 ? 254 : 2046;
  const Bits<T> full = ((Bits<T>)1 << kMan) - 1, top = (Bits<T>)1 << (sizeof(T) * 8 - 1);
  const int step = sizeof(T) == 4 ? (ex::thorough() ? 1 : 3) : ex::thorough() ? 7 : 23;
  std::vector<int> es;
  for (int e = 0; e <= kExp; e += e < 4 || e > kExp - 4 || std::abs(e - kExp / 2) < 8 ? 1 : step) es.push_back(e);
  for (int e = kExp - 3; e <= kExp; e++) es.push_back(e);
  for (int e : es) for (Bits<T> m : {(Bits<T>)0, (Bits<T>)1, full, full / 3, (Bits<T>)(full / 7 * 4)}) v.push_back(from<T>((Bits<T>)e << kMan | m)), v.push_back(from<T>(top | (Bits<T>)e << kMan | m));
  v.push_back((T)INFINITY), v.push_back(-(T)INFINITY), v.push_back((T)NAN), v.push_back(-(T)NAN);
  while (v.size() % N) v.push_back(1);
  static T o[64];
  double worst = 0;
  for (T a : v) for (size_t i = 0; i < v.size(); i += N) {
    const auto va = hn::Set(d, a), vb = hn::LoadU(d, v.data() + i);
    hn::StoreU(hyp ? hn::CallHypot(d, va, vb) : hn::CallAtan2(d, va, vb), d, o);
    ex::add(N);
    for (size_t j = 0; j < N; j++) {
      const T b = v[i + j];
      const L w = hyp ? std::hypot((L)a, (L)b) : std::atan2((L)a, (L)b);
      double e = ulps<T>(o[j], w);
      const bool special = !hyp && (a == 0 || b == 0 || std::isinf(a) || std::isinf(b));
      // A quotient below the normal range has lost bits.
      if (!hyp && std::fabs((L)a / (L)b) < (L)std::numeric_limits<T>::min() * 2) e = std::fabs((L)o[j] - w) <= (L)std::numeric_limits<T>::denorm_min() * 4 + std::fabs(w) * (L)std::numeric_limits<T>::epsilon() * 2 ? 0 : 1e30;
      if (e < 1e29) worst = std::max(worst, e);
      const bool sign = !hyp && w == w && std::signbit(o[j]) != std::signbit(a);
      if (sign || !(e <= (hyp ? 4.501 : special ? 1.001 : 6))) {
        ex::at("%.17g, %.17g", (double)a, (double)b);
        EX_FAIL("error %.4g ulp: got %.17g, should be %.17g", e, (double)o[j], (double)w);
        if (ex::many()) return ex::group_end();
      }
    }
  }
  if (getenv("VF_ULP")) fprintf(stderr, "ULP %s %s %.4g\n", hwy::TargetName(HWY_TARGET), nm, worst);
  ex::sample("%zu^2 pairs, largest error %.3f ulp", v.size(), worst);
  ex::group_end();
}
template <class T> void some(size_t lo, size_t hi) {
  const auto f = fns<T>();
  for (size_t i = lo; i < std::min(hi, f.size()); i++) run(f[i]);
}
template <class T> void rest() {
  two<T>(false);
  two<T>(true);
  lanes<T, 64>();
  lanes<T, 4>();
  lanes<T, 2>();
  lanes<T, 1>();
}
void all() {
#if PART < 4
  some<f32>(PART * 5, PART * 5 + 5);
#elif PART == 4
  rest<f32>();
#if HWY_HAVE_FLOAT64
  rest<f64>();
#endif
#else
#if HWY_HAVE_FLOAT64
  some<f64>((PART - 5) * 7, (PART - 5) * 7 + 7);
#endif
#endif
}
}  // namespace
HWY_AFTER_NAMESPACE();
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
