// Bounded-exhaustive enumeration of vector ops on one target (the static one).
// Every op is a pair (vector expression, scalar expression). The driver feeds
// every lane with every tuple of its input space and compares each output lane.
#ifndef VERIF_SIMD_H_
#define VERIF_SIMD_H_
#include <math.h>
#include <string.h>
#include <type_traits>

#include "ex.h"
#include "hwy/highway.h"
#ifndef PART
#define PART 0
#endif
namespace hn = hwy::HWY_NAMESPACE;
using namespace hwy::HWY_NAMESPACE;
using hwy::bfloat16_t;
using hwy::float16_t;
using hwy::IsFloat;
using hwy::IsSigned;
using hwy::MakeSigned;
using hwy::MakeUnsigned;
typedef uint8_t u8;
typedef int8_t i8;
typedef uint16_t u16;
typedef int16_t i16;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint64_t u64;
typedef int64_t i64;
typedef float f32;
typedef double f64;
typedef __int128 X;
typedef unsigned __int128 UX;

template <class T> const char* tname() {
  return std::is_same<T, u8>::value ? "u8" : std::is_same<T, i8>::value ? "i8" : std::is_same<T, u16>::value ? "u16" : std::is_same<T, i16>::value ? "i16"
       : std::is_same<T, u32>::value ? "u32" : std::is_same<T, i32>::value ? "i32" : std::is_same<T, u64>::value ? "u64" : std::is_same<T, i64>::value ? "i64"
       : std::is_same<T, f32>::value ? "f32" : std::is_same<T, f64>::value ? "f64" : std::is_same<T, float16_t>::value ? "f16" : std::is_same<T, bfloat16_t>::value ? "bf16" : "?";
}
// Types whose lanes the harness treats as floating-point numbers (float16_t where it has native arithmetic).
template <class T> constexpr bool fp_() { return std::is_floating_point<T>::value || (HWY_HAVE_FLOAT16 && std::is_same<T, float16_t>::value); }
template <class T> constexpr int eb_() { return sizeof(T) == 2 ? 5 : sizeof(T) == 4 ? 8 : 11; }    // exponent bits
template <class T> constexpr int mb_() { return sizeof(T) == 2 ? 10 : sizeof(T) == 4 ? 23 : 52; }  // mantissa bits
template <size_t S> struct UOf;
template <> struct UOf<1> { typedef u8 t; };
template <> struct UOf<2> { typedef u16 t; };
template <> struct UOf<4> { typedef u32 t; };
template <> struct UOf<8> { typedef u64 t; };
template <class T> using Bits = typename UOf<sizeof(T)>::t;
template <class T> Bits<T> bits(T v) { Bits<T> b; memcpy(&b, &v, sizeof b); return b; }
template <class T> T from(Bits<T> b) { T v; memcpy((void*)&v, &b, sizeof v); return v; }
template <class T> bool isnan_(T) { return false; }
inline bool isnan_(float v) { return (bits(v) & 0x7fffffff) > 0x7f800000; }
inline bool isnan_(double v) { return (bits(v) & ~(1ull << 63)) > 0x7ffull << 52; }
inline bool isnan_(float16_t v) { return (bits(v) & 0x7fff) > 0x7c00; }
inline bool isnan_(bfloat16_t v) { return (bits(v) & 0x7fff) > 0x7f80; }
// Equal bit patterns; any NaN matches any NaN.
template <class T> bool same(T a, T b) { return bits(a) == bits(b) || (isnan_(a) && isnan_(b)); }
template <class T> void show(char* o, size_t n, T v) {
  if constexpr (fp_<T>()) snprintf(o, n, "%.9g(%llx)", (double)v, (unsigned long long)bits(v));
  else if constexpr (std::is_integral<T>::value && std::is_signed<T>::value) snprintf(o, n, "%lld", (long long)v);
  else if constexpr (std::is_integral<T>::value) snprintf(o, n, "%llu", (unsigned long long)v);
  else snprintf(o, n, "0x%x", (unsigned)bits(v));
}
template <class T> T lo_() { if constexpr (fp_<T>()) return (T)-__builtin_inf(); else return std::is_signed<T>::value ? (T)((Bits<T>)1 << (sizeof(T) * 8 - 1)) : (T)0; }
template <class T> T hi_() { return std::is_signed<T>::value ? (T)(((Bits<T>)1 << (sizeof(T) * 8 - 1)) - 1) : (T)~(T)0; }
template <class T> T sat(X v) { return v < (X)lo_<T>() ? lo_<T>() : v > (X)hi_<T>() ? hi_<T>() : (T)v; }
template <class T> X x(T v) { return (X)v; }

// ---------------------------------------------------------------- alphabets
// Boundary values; level 0 small (for triples), 1 normal, 2 large.
template <class T> const std::vector<T>& alpha(int level) {
  static std::vector<T> v[3];
  if (!v[0].empty()) return v[level];
  typedef Bits<T> B;
  const int W = sizeof(T) * 8;
  std::vector<B> s[3];
  auto put = [&](int l, B b) {
    for (int k = l; k < 3; k++) {
      bool dup = false;
      for (B q : s[k]) dup |= q == b;
      if (!dup) s[k].push_back(b);
    }
  };
  if constexpr (fp_<T>()) {
    const int E = eb_<T>(), Mb = mb_<T>();
    const B one = (B)((1 << (E - 1)) - 1) << Mb, S = (B)1 << (W - 1), inf = (B)((1 << E) - 1) << Mb;
    auto pm = [&](int l, B b) { put(l, b); put(l, b | S); };
    auto num = [&](int l, double d) { pm(l, bits((T)d)); };
    for (double d : {0.0, 1.0, 0.5, 1.5, 2.0, 3.0}) num(0, d);
    pm(0, inf);
    put(0, inf | ((B)1 << (Mb - 1)));
    pm(0, 1);
    pm(0, inf - 1);
    pm(0, (B)1 << Mb);
    pm(1, inf | ((B)1 << (Mb - 1)));
    pm(1, inf | ((B)1 << (Mb - 1)) | 1);
    pm(1, ((B)1 << Mb) - 1);
    pm(1, ((B)1 << Mb) + 1);
    pm(1, one + 1);
    pm(1, one - 1);
    pm(1, bits((T)0.5) - 1);
    pm(1, bits((T)0.5) + 1);
    for (double d : {2.5, 3.5, 4.5, 7.0, 10.0, 0.1, 0.3, 100.25, 255.0, 255.5, 256.0, 32767.0, 32767.5, 32768.0, 65535.0, 65535.5, 65536.0, 1e10, 1e-10, 1e30, 1e-30}) num(1, d);
    for (int e : {22, 23, 24, 25, 30, 31, 32, 33, 51, 52, 53, 54, 62, 63, 64, 65}) {
      pm(1, bits((T)ldexp(1.0, e)));
      pm(1, bits((T)ldexp(1.0, e)) - 1);
      pm(2, bits((T)ldexp(1.0, e)) + 1);
      num(2, ldexp(1.0, e) + 0.5);
      num(2, ldexp(1.0, e) - 0.5);
    }
    for (int e = 1; e < (1 << E) - 1; e += sizeof(T) == 2 ? 3 : sizeof(T) == 4 ? 9 : 60) { pm(1, (B)e << Mb | (B)0x2aaaaaaaaaaaaull >> (52 - Mb)); pm(2, (B)e << Mb); pm(2, ((B)e << Mb) - 1); }
    for (int e : {7, 8, 11, 15, 16, 31, 32}) for (double d : {-1.75, -1.5, -1.0, -0.75, -0.5, -0.25, 0.25, 0.5, 0.75, 1.0, 1.5}) num(2, ldexp(1.0, e) + d);
    pm(1, sizeof(T) == 4 ? (B)0x00000002 : (B)2);
    pm(2, inf | 1);  // signalling
    for (B k = 3; k < 12; k++) num(2, (double)k + 0.5), num(2, (double)k);
  } else {
    const B m = (B)1 << (W - 1);
    for (B b : {(B)0, (B)1, (B)2, (B)~(B)0, (B)(m - 1), m, (B)(m + 1), (B)((B)~(B)0 - 1)}) put(0, b);
    put(0, (B)((B)1 << (W / 2)));
    put(0, (B)(((B)1 << (W / 2)) - 1));
    put(0, (B)0x0123456789abcdefull);
    put(0, (B)0xfedcba9876543210ull);
    for (B b : {(B)3, (B)5, (B)7, (B)10, (B)100, (B)0x5555555555555555ull, (B)0xaaaaaaaaaaaaaaaaull, (B)0x8080808080808080ull, (B)0x7f7f7f7f7f7f7f7full, (B)0x00ff00ff00ff00ffull, (B)0x0000ffff0000ffffull, (B)0xff00ff00ff00ff00ull, (B)0x8000800080008000ull, (B)0x7fff7fff7fff7fffull, (B)0x8000000080000000ull, (B)0x7fffffff7fffffffull, (B)0x00000000ffffffffull, (B)0xdeadbeefcafebabeull}) put(1, b);
    for (int i = 0; i < W; i++) {
      put(1, (B)1 << i);
      put(W > 32 ? 2 : 1, ((B)1 << i) - 1);
      put(2, ((B)1 << i) + 1);
      put(2, ~((B)1 << i));
      put(W > 32 ? 2 : 1, (B)(0 - ((B)1 << i)));
    }
    for (int i = 0; i < W; i += 8) { put(1, (B)((B)0x80 << i)); put(1, (B)((B)0xff << i)); put(2, (B)((B)0x7f << i)); put(1, (B) ~(B)((B)0xff << i)); }
    for (B k = 0; k < 24; k++) put(2, k * (B)0x9e3779b97f4a7c15ull);
    // ties when converted to float or double
    for (int p : {24, 53}) for (int k = 0; k + p < W; k++) for (int o = -1; o < 2; o++) for (int h = 1; h < 4; h += 2) {
      const B t = (B)((((B)1 << p) + (B)h) << k) + (B)o;
      put(2, t);
      put(2, (B)(0 - t));
    }
  }
  for (int l = 0; l < 3; l++) for (B b : s[l]) v[l].push_back(from<T>(b));
  return v[level];
}
// The complete type if it has at most 16 bits (or W <= max), else the alphabet.
template <class T> std::vector<T> every() {
  std::vector<T> r;
  for (u32 k = 0; k < (1u << (sizeof(T) * 8)); k++) r.push_back(from<T>((Bits<T>)k));
  return r;
}

// ---------------------------------------------------------------- lane driver
template <class T> thread_local T g_out;  // the lane's actual result, for ops with several acceptable results
extern thread_local bool g_any;  // set by a reference: this lane is implementation-defined
#define ANY() (g_any = true, 0)
template <class T> using Kern = void (*)(const T* a, const T* b, const T* c, const T* m, void* out);
template <class T, class TO> using Ref = TO (*)(const T* a, const T* b, const T* c, const T* m, size_t i, size_t N);
enum { A1 = 1, A2 = 2, A3 = 3, MASK = 8, NOEXH = 16, SMALL = 32, LOOPW = 64, DENSE = 128, MULT = 256 };
extern int g_k;  // LOOPW: runs once for every g_k in [0, bits per lane)

template <class T, class TO>
struct Driver {
  const char* name;
  size_t N, NO;
  Kern<T> k;
  Ref<T, TO> r;
  bool full;  // largest vector
  uint64_t evals = 0;
  alignas(64) T a[64], b[64], c[64], m[64];
  alignas(64) TO out[128];
  bool step() {
    k(a, b, c, m, out);
    for (size_t i = 0; i < NO; i++) {
      g_any = false;
      g_out<TO> = out[i];
      const TO w = r(a, b, c, m, i, N);
      if (HWY_UNLIKELY(!same(out[i], w)) && !g_any) { bad(i, w); if (ex::many()) return false; }
    }
    evals += NO;
    return true;
  }
  void bad(size_t i, TO w) {
    char s[4][64], g[64], e[64], cs[400];
    const size_t j = i < N ? i : N - 1;
    show(s[0], 64, a[j]);
    show(s[1], 64, b[j]);
    show(s[2], 64, c[j]);
    show(g, 64, out[i]);
    show(e, 64, w);
    snprintf(cs, sizeof cs, "N=%zu lane %zu a=%s b=%s c=%s m=%d k=%d", N, i, s[0], s[1], s[2], bits(m[j]) != 0, g_k);
    ex::failc(cs, "got %s, expected %s", g, e);
  }
  // every lane receives every tuple: lane i of step t gets tuple (t + i * stride) mod total
  template <class F> bool sweep(uint64_t total, bool every_lane, F f) {
    uint64_t stride = every_lane ? (total / (N + 1)) | 1 : (total + N - 1) / N;
    if (every_lane) for (;; stride += 2) { uint64_t p = stride, q = total; while (q) { uint64_t r_ = p % q; p = q; q = r_; } if (p == 1) break; }
    const uint64_t steps = every_lane ? total : stride;
    for (uint64_t t = 0; t < steps; t++) {
      for (size_t i = 0; i < N; i++) {
        uint64_t u = every_lane ? (t + i * stride) % total : t + i * stride;
        if (u >= total) u = total - 1;
        f(u, i);
      }
      if (!step()) return false;
    }
    return true;
  }
  void run(int mode) {
    const int ar = mode & 7;
    const bool mk = mode & MASK, th = ex::thorough();
    const Bits<T> ones = (Bits<T>)~(Bits<T>)0;
    memset((void*)a, 0, sizeof a);
    memset((void*)b, 0, sizeof b);
    memset((void*)c, 0, sizeof c);
    memset((void*)m, 0xff, sizeof m);
    ex::at("N=%zu", N);
    const uint64_t ms = mk ? 2 : 1;
    auto setm = [&](uint64_t u, size_t i) { if (mk) m[i] = from<T>((Bits<T>)(u & 1 ? ones : 0)); };
    const auto& S = alpha<T>(0);
    const auto& Mm = alpha<T>(sizeof(T) == 1 ? 0 : th && !(mode & SMALL) ? 2 : (mode & SMALL) ? 0 : 1);
    if (ar == 1) {
      if constexpr (sizeof(T) <= 2) {
        const uint64_t n = 1ull << (sizeof(T) * 8);
        sweep(n * ms, sizeof(T) == 1 || full, [&](uint64_t u, size_t i) { a[i] = from<T>((Bits<T>)(u / ms)); setm(u, i); });
      } else {
        const auto& L = alpha<T>(2);
        sweep(L.size() * ms, true, [&](uint64_t u, size_t i) { a[i] = L[u / ms]; setm(u, i); });
        if constexpr (sizeof(T) == 4) {
          if (full && !mk && !(mode & NOEXH)) {
            // thorough: all 2^32 values, each in one lane; quick: an exhaustive lattice (every 2^10th value and its +-1)
            if (th) sweep(1ull << 32, false, [&](uint64_t u, size_t i) { a[i] = from<T>((Bits<T>)u); });
            else sweep(3ull << (mode & DENSE ? 20 : 16), false, [&](uint64_t u, size_t i) { a[i] = from<T>((Bits<T>)((u / 3) << (mode & DENSE ? 12 : 16)) + (Bits<T>)(u % 3) - 1); });
          }
        } else if (full && !mk && !(mode & NOEXH)) {
          const int lb = th ? mode & DENSE ? 26 : 24 : mode & DENSE ? 23 : 17;  // leading bits enumerated
          sweep(3ull << lb, false, [&](uint64_t u, size_t i) { a[i] = from<T>((Bits<T>)((u / 3) << (64 - lb)) + (Bits<T>)(u % 3) - 1); });
        }
      }
      // sums of up to three signed powers of two and their neighbours: ties and carries at any distance
      if constexpr (sizeof(T) >= 4) if (full && !mk && (mode & DENSE)) {
        constexpr u64 W = fp_<T>() ? (sizeof(T) == 8 ? 53 : 24) : sizeof(T) * 8, E = fp_<T>() ? 72 : W;
        sweep(E * W * W * 24, false, [&](uint64_t u, size_t i) {
          const int o = (int)(u % 3) - 1, sg = (int)(u / 3 % 8);
          const int z = (int)(u / 24 % W), y = (int)(u / 24 / W % W), e = (int)(u / 24 / W / W);
          Bits<T> v;
          if constexpr (fp_<T>()) {
            const double f = ldexp(1.0 + (sg & 1 ? -1 : 1) * ldexp(1.0, -1 - y) + (sg & 2 ? -1 : 1) * ldexp(1.0, -1 - z), e - 6);
            v = bits((T)(sg & 4 ? -f : f));
          } else {
            const Bits<T> q = (Bits<T>)1 << e, r = (Bits<T>)1 << y, t = (Bits<T>)1 << z;
            v = q + (sg & 1 ? 0 - r : r) + (sg & 2 ? 0 - t : t);
            if (sg & 4) v = 0 - v;
          }
          a[i] = from<T>((Bits<T>)(v + (Bits<T>)o));
        });
      }
    } else if (ar == 2) {
      // quotients: multiples of b and their neighbours, small ones and those next to the largest
      if constexpr (std::is_integral<T>::value && sizeof(T) > 1) if (full && !mk && (mode & MULT)) {
        sweep(511 * 512 * 12, false, [&](uint64_t u, size_t i) {
          const Bits<T> d = (Bits<T>)(u % 511 + 1), top = (Bits<T>)hi_<T>() / d, k = (Bits<T>)(u / 511 % 512), o = (Bits<T>)(u / 511 / 512 % 3) - 1;
          const Bits<T> q = (Bits<T>)((Bits<T>)(k < 256 ? k : top - (k - 256)) * d + o);
          const int sg = (int)(u / 511 / 512 / 3);
          a[i] = from<T>((Bits<T>)(sg & 1 ? 0 - q : q));
          b[i] = from<T>((Bits<T>)(sg & 2 ? 0 - d : d));
        });
      }
      if constexpr (sizeof(T) == 1) {
        sweep(65536 * ms, !mk || th || N <= 16, [&](uint64_t u, size_t i) { a[i] = from<T>((Bits<T>)(u / ms >> 8)); b[i] = from<T>((Bits<T>)(u / ms)); setm(u, i); });
      } else {
        const uint64_t n = Mm.size();
        sweep(n * n * ms, true, [&](uint64_t u, size_t i) { a[i] = Mm[u / ms / n]; b[i] = Mm[u / ms % n]; setm(u, i); });
        if constexpr (sizeof(T) == 2) {
          if (full && !mk && !(mode & NOEXH)) {
            const uint64_t q = th ? n : S.size();
            const auto& Q = th ? Mm : S;
            sweep(q << 17, false, [&](uint64_t u, size_t i) {
              const T v = from<T>((Bits<T>)u), w = Q[u >> 17];
              a[i] = u >> 16 & 1 ? v : w;
              b[i] = u >> 16 & 1 ? w : v;
            });
          }
        }
      }
    } else {
      const auto& Z = th && sizeof(T) > 1 && !(mode & SMALL) ? alpha<T>(1) : S;
      const uint64_t n = Z.size();
      sweep(n * n * n * ms, n < 40 && N <= 16, [&](uint64_t u, size_t i) {
        uint64_t v = u / ms;
        a[i] = Z[v % n], b[i] = Z[v / n % n], c[i] = Z[v / n / n];
        setm(u, i);
      });
    }
    ex::add(evals, evals / (NO ? NO : 1));
    evals = 0;
  }
};
template <class Op, class D> HWY_NOINLINE void kern_(const TFromD<D>* pa, const TFromD<D>* pb, const TFromD<D>* pc, const TFromD<D>* pm, void* out) {
  const D d;
  const RebindToUnsigned<D> du;
  auto r = Op::vec(d, LoadU(d, pa), LoadU(d, pb), LoadU(d, pc), MaskFromVec(BitCast(d, LoadU(du, (const TFromD<decltype(du)>*)pm))));
  StoreU(r, DFromV<decltype(r)>(), (TFromV<decltype(r)>*)out);
}
template <class Op, class T, size_t K> void one_(size_t maxk) {
  if constexpr (K * sizeof(T) <= HWY_MAX_BYTES && (HWY_TARGET != HWY_SCALAR || K == 1)) {
    if constexpr (K >= Op::kMin(sizeof(T)) && K * Op::kOut <= HWY_MAX_BYTES) {
      using D = CappedTag<T, K>;
      using V = Vec<D>;
      using R = decltype(Op::vec(D(), V(), V(), V(), Mask<D>()));
      using TO = TFromV<R>;
      static Driver<T, TO> dr;
      dr.name = Op::name();
      dr.N = K;
      dr.NO = Lanes(DFromV<R>());
      if (Op::kOneOut) dr.NO = 1;
      dr.k = &kern_<Op, D>;
      dr.r = &Op::template ref<T, TO>;
      dr.full = K * sizeof(T) == HWY_MAX_BYTES || HWY_TARGET == HWY_SCALAR;
      for (g_k = 0; g_k < (Op::mode & LOOPW && !(sizeof(T) == 1 && (Op::mode & 7) == 2) ? (int)sizeof(T) * 8 : 1); g_k++) dr.run(Op::mode);
      g_k = 0;
    }
    one_<Op, T, K * 2>(maxk);
  }
}
template <class Op, class T> void sizes_() {
  char n[100];
  snprintf(n, sizeof n, "%s/%s", Op::name(), tname<T>());
  if (!ex::enter(n)) return;
  one_<Op, T, 1>(0);
  ex::group_end();
}
template <class Op, class... Ts> void types() { (void)std::initializer_list<int>{(sizes_<Op, Ts>(), 0)...}; }

// a vector with garbage (if g) in the lanes beyond the last of a partial vector
template <class D, class T = TFromD<D>> HWY_INLINE Vec<D> ldg(D d, const T* p, bool g, int fill = 0xD7) {
  if constexpr (HWY_TARGET == HWY_SCALAR || MaxLanes(D()) * sizeof(T) >= HWY_MAX_BYTES) return LoadU(d, p);
  else {
    if (!g) return LoadU(d, p);
    const FixedTag<T, HWY_MAX_BYTES / sizeof(T)> df;
    alignas(64) T t[HWY_MAX_BYTES / sizeof(T)];
    memset((void*)t, fill, sizeof t);
    memcpy((void*)t, p, MaxLanes(D()) * sizeof(T));
    return ResizeBitCast(d, LoadU(df, t));
  }
}
// lanes beyond partial vectors hold garbage in this pass (only has an effect in vectors and masks made by ldg)
inline bool g_gar;
// Custom groups: calls f(d) for every vector size of T; twice, without and with garbage, for vectors whose half is partial.
template <class T, size_t K, class F> void sizes_do(F f) {
  if constexpr (K * sizeof(T) <= HWY_MAX_BYTES && (HWY_TARGET != HWY_SCALAR || K == 1)) {
    const CappedTag<T, K> d;
    ex::at("N=%zu", K);
    f(d);
    if (!ex::many()) sizes_do<T, K * 2>(f);
  }
}
template <class T, class F> void group(const char* op, F f) {
  char n[100];
  snprintf(n, sizeof n, "%s/%s", op, tname<T>());
  if (!ex::enter(n)) return;
  sizes_do<T, 1>([&](auto d) HWY_ATTR {
    g_gar = false;
    f(d);
    if (HWY_TARGET == HWY_SCALAR || Lanes(d) * sizeof(T) > 16 || ex::many()) return;
    g_gar = true;
    f(d);
    g_gar = false;
  });
  ex::group_end();
}
template <class... Ts, class F> void groups(const char* op, F f) { (void)std::initializer_list<int>{(group<Ts>(op, f), 0)...}; }

#define OPX_HEAD(NAME, NM, MODE, MINEXPR, ONEOUT, OUTSZ, VEXPR, SEXPR)                                          \
  struct NAME {                                                                                                 \
    static const char* name() { NM }                                                                            \
    enum { mode = MODE, kOneOut = ONEOUT, kOut = OUTSZ };                                                       \
    static constexpr size_t kMin(size_t S) { return MINEXPR; }                                                  \
    template <class D, class V, class M> static HWY_INLINE auto vec(D d, V a, V b, V c, M m) {                  \
      using T = TFromD<D>;                                                                                      \
      (void)d, (void)a, (void)b, (void)c, (void)m;                                                              \
      return VEXPR;                                                                                             \
    }                                                                                                           \
    template <class T, class TO> static TO ref(const T* pa, const T* pb, const T* pc, const T* pm, size_t i, size_t N) { \
      using B_ = Bits<T>;                                                                                       \
      const size_t j = i < N ? i : N - 1;                                                                       \
      const T A = pa[j], B = pb[j], C = pc[j];                                                                  \
      const bool M = bits(pm[j]) != 0;                                                                          \
      (void)A, (void)B, (void)C, (void)M, (void)N;                                                              \
      return (TO)(SEXPR);                                                                                       \
    }                                                                                                           \
  };
#define OPX(NAME, MODE, MINEXPR, ONEOUT, VEXPR, SEXPR) OPX_HEAD(NAME, return #NAME;, MODE, MINEXPR, ONEOUT, 1, VEXPR, SEXPR)
// Same, parameterised by another lane type TZ (conversions).
#define OPZ(NAME, MODE, MINEXPR, VEXPR, SEXPR) \
  template <class TZ> OPX_HEAD(NAME, static char nm[48]; snprintf(nm, sizeof nm, #NAME "<%s>", tname<TZ>()); return nm;, MODE, MINEXPR, 0, sizeof(TZ), VEXPR, SEXPR)
#define OP1(NAME, V, S) OPX(NAME, A1, 1, 0, V, S)
#define OP2(NAME, V, S) OPX(NAME, A2, 1, 0, V, S)
#define OP3(NAME, V, S) OPX(NAME, A3, 1, 0, V, S)
#define OP1M(NAME, V, S) OPX(NAME, A1 | MASK, 1, 0, V, S)
#define OP2M(NAME, V, S) OPX(NAME, A2 | MASK, 1, 0, V, S)
#define OP3M(NAME, V, S) OPX(NAME, A3 | MASK, 1, 0, V, S)
#define UI8_ u8, i8
#define UI16_ u16, i16
#define UI32_ u32, i32
#define UI64_ u64, i64
#define U_ u8, u16, u32, u64
#define I_ i8, i16, i32, i64
#define UI_ u8, i8, u16, i16, u32, i32, u64, i64
#define F_ f32, f64
#if HWY_HAVE_FLOAT16
#define FH_ f32, f64, float16_t
#else
#define FH_ F_
#endif
#define ALL_ UI_, F_
#define ALLH_ UI_, FH_
#ifndef SIMD_NO_DEF
thread_local bool g_any;
int g_k;
#endif
#endif
