// C16: memory ops. Every access happens in one accessible page between two
// inaccessible ones; the whole page is compared after every store.
#include "simd.h"
#include "hwy/cache_control.h"
namespace {
constexpr size_t kPage = 4096;
struct Arena {
  ex::Guard g{kPage};
  u8* b;      // first byte
  u8* e;      // end of the page
  u8 want[kPage];
  Arena() : b(g.begin()), e(g.end()) {}
  void fill() {
    for (size_t k = 0; k < kPage; k++) b[k] = want[k] = (u8)(k * 167 + (k >> 8) * 29 + 91);
  }
  u8* w(const void* p) { return want + ((const u8*)p - b); }
  void check(const char* what) {
    ex::add();
    if (HWY_LIKELY(!memcmp(b, want, kPage))) return;
    for (size_t k = 0; k < kPage; k++) if (b[k] != want[k]) {
      EX_FAIL("%s: byte %zu of the page is 0x%02x, expected 0x%02x", what, k, b[k], want[k]);
      break;
    }
    fill();
  }
};
Arena& A_() { static Arena* a = new Arena; return *a; }
template <class T> T lane(size_t i, int salt = 0) {
  u8 by[sizeof(T)];
  for (size_t k = 0; k < sizeof(T); k++) by[k] = (u8)((i * 0x3b + k * 0x51 + (size_t)salt * 0x17 + 3));
  T v;
  memcpy((void*)&v, by, sizeof v);
  return v;
}
template <class T> bool eq(const T* a, const T* b, size_t n) { return !memcmp(a, b, n * sizeof(T)); }
template <class T> void report(const char* op, const T* got, const T* exp, size_t n) {
  for (size_t i = 0; i < n; i++) if (bits(got[i]) != bits(exp[i])) { EX_FAIL("%s: lane %zu is 0x%llx, expected 0x%llx", op, i, (unsigned long long)bits(got[i]), (unsigned long long)bits(exp[i])); return; }
}
#define SAME(op, got, exp, n) do { ex::add(); if (HWY_UNLIKELY(!eq(got, exp, n))) report(op, got, exp, n); } while (0)
// all masks for up to 8 lanes (thorough: 16); intervals, complements of single lanes and periodic masks beyond
const std::vector<u64>& masks(size_t N) {
  static std::vector<u64> v[7];
  auto& r = v[__builtin_ctzll(N)];
  if (!r.empty()) return r;
  const u64 all = N == 64 ? ~0ull : (1ull << N) - 1;
  if (N <= (ex::thorough() ? 16 : 8)) { for (u64 m = 0; m <= all; m++) r.push_back(m); return r; }
  for (size_t i = 0; i < N; i++) for (size_t j = i; j < N; j++) r.push_back((all >> (N - 1 - j)) & (all << i));
  for (size_t i = 0; i < N; i++) r.push_back(all & ~(1ull << i));
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < i; j++) r.push_back(1ull << i | 1ull << j);
  for (u64 p : {0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull, 0x0000ffff0000ffffull, 0x1248124812481248ull, 0x8001800180018001ull, 0x0123456789abcdefull, 0x9e3779b97f4a7c15ull, 0ull}) r.push_back(p & all), r.push_back(~p & all);
  return r;
}
template <class D> Mask<D> mk(D d, u64 m) {
  using TU = MakeUnsigned<TFromD<D>>;
  const RebindToUnsigned<D> du;
  alignas(64) TU x[64];
  const size_t N = Lanes(d);
  for (size_t i = 0; i < N; i++) x[i] = m >> i & 1 ? (TU)~(TU)0 : 0;
  return MaskFromVec(BitCast(d, ldg(du, x, g_gar, 0xFF)));
}

struct Plain {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    Arena& ar = A_();
    ar.fill();
    const size_t N = Lanes(d), VB = N * sizeof(T);
    alignas(64) T got[64], exp[64], in[64];
    for (size_t i = 0; i < N; i++) in[i] = lane<T>(i);
    auto ld = [&](const char* op, u8* p, bool aligned, bool dup) HWY_ATTR {
      ex::at("N=%zu %s at offset %zd", N, op, p - ar.b);
      memcpy((void*)exp, p, VB);
      memset((void*)got, 0xAA, sizeof got);
      StoreU(aligned ? Load(d, (const T*)p) : LoadU(d, (const T*)p), d, got);
      SAME(op, got, exp, N);
      (void)dup;
    };
    auto st = [&](const char* op, u8* p, int mode) HWY_ATTR {
      ex::at("N=%zu %s at offset %zd", N, op, p - ar.b);
      const auto v = LoadU(d, in);
      if (mode == 0) Store(v, d, (T*)p);
      else if (mode == 1) StoreU(v, d, (T*)p);
      else { Stream(v, d, (T*)p); hwy::FlushStream(); }
      memcpy(ar.w(p), in, VB);
      ar.check(op);
      memset(p, 0x5c, VB);
      memset(ar.w(p), 0x5c, VB);
    };
    // unaligned: every element offset within two vectors of either end
    for (size_t o = 0; o <= 128; o += sizeof(T)) for (int end = 0; end < 2; end++) {
      u8* p = end ? ar.e - VB - o : ar.b + o;
      ld("LoadU", p, false, false);
      st("StoreU", p, 1);
    }
    for (size_t o = 0; o < 4 * VB; o += VB) for (int end = 0; end < 2; end++) {
      u8* p = end ? ar.e - VB - o : ar.b + o;
      ld("Load", p, true, false);
      st("Store", p, 0);
      // Stream may write a multiple of HWY_STREAM_MULTIPLE bytes
      if (VB % HWY_STREAM_MULTIPLE == 0) st("Stream", p, 2);
    }
    // an operand that is also the destination
    for (size_t s = 0; s < 4 * N && s * sizeof(T) <= 192; s++) for (size_t t = 0; t < 4 * N && t * sizeof(T) <= 192; t += sizeof(T) == 1 ? 3 : 1) {
      T* q = (T*)ar.b;
      ex::at("N=%zu copy %zu to %zu", N, s, t);
      ar.fill();
      memmove(ar.want + t * sizeof(T), ar.want + s * sizeof(T), VB);
      StoreU(LoadU(d, q + s), d, q + t);
      ar.check("StoreU(LoadU)");
    }
  }
};
struct Dup {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    if constexpr (HWY_TARGET != HWY_SCALAR && MaxLanes(D()) * sizeof(T) >= 16) {
      Arena& ar = A_();
      ar.fill();
      const size_t N = Lanes(d), B = 16 / sizeof(T);
      alignas(64) T got[64], exp[64];
      for (size_t o = 0; o <= 64; o += 16) for (int end = 0; end < 2; end++) {
        const T* p = (const T*)(end ? ar.e - 16 - o : ar.b + o);
        ex::at("N=%zu LoadDup128 offset %zu from %s", N, o, end ? "end" : "start");
        for (size_t i = 0; i < N; i++) exp[i] = p[i % B];
        StoreU(LoadDup128(d, p), d, got);
        SAME("LoadDup128", got, exp, N);
      }
    }
  }
};
// LoadN, LoadNOr, StoreN for every count, directly before and after inaccessible memory
struct Count {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    Arena& ar = A_();
    ar.fill();
    const size_t N = Lanes(d);
    alignas(64) T got[64], exp[64], no[64];
    for (size_t i = 0; i < N; i++) no[i] = lane<T>(i, 9);
    for (size_t n = 0; n <= 2 * N + 1; n++) for (int end = 0; end < 2; end++) for (size_t o = 0; o < 64 / sizeof(T); o++) {
      const size_t c = n < N ? n : N;
      T* p = (T*)(end ? ar.e - n * sizeof(T) : ar.b) + (end ? -(ptrdiff_t)o : (ptrdiff_t)o);
      ex::at("N=%zu n=%zu offset %zd", N, n, (u8*)p - ar.b);
      memset((void*)exp, 0, sizeof exp);
      memcpy((void*)exp, p, c * sizeof(T));
      StoreU(LoadN(d, p, n), d, got);
      SAME("LoadN", got, exp, N);
      memcpy((void*)exp, no, sizeof(T) * N);
      memcpy((void*)exp, p, c * sizeof(T));
      StoreU(LoadNOr(LoadU(d, no), d, p, n), d, got);
      SAME("LoadNOr", got, exp, N);
      // StoreN touches only min(n, N) lanes
      p = (T*)(end ? ar.e - c * sizeof(T) : ar.b) + (end ? -(ptrdiff_t)o : (ptrdiff_t)o);
      ex::at("N=%zu n=%zu StoreN offset %zd", N, n, (u8*)p - ar.b);
      StoreN(LoadU(d, no), d, p, n);
      memcpy(ar.w(p), no, c * sizeof(T));
      ar.check("StoreN");
      memset((void*)p, 0x5c, c * sizeof(T));
      memset((void*)ar.w(p), 0x5c, c * sizeof(T));
      if (ex::many()) return;
    }
    // very large counts
    for (size_t n : {size_t(255), size_t(256), size_t(257), size_t(65536), size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0) / 2 + 1, ~size_t(0)}) {
      T* p = (T*)(ar.e - N * sizeof(T));
      ex::at("N=%zu n=%zu StoreN", N, n);
      StoreN(LoadU(d, no), d, p, n);
      memcpy(ar.w(p), no, N * sizeof(T));
      ar.check("StoreN");
      ex::at("N=%zu n=%zu LoadN", N, n);
      T* q = (T*)ar.b;
      StoreU(LoadN(d, q, n), d, got);
      SAME("LoadN", got, q, N);
    }
  }
};
struct Safe {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    Arena& ar = A_();
    static Arena* src = new Arena;
    ar.fill();
    const size_t N = Lanes(d);
    src->fill();
    for (size_t n = 0; n <= N; n++) for (int end = 0; end < 2; end++) for (size_t o = 0; o < 2 * 16 / sizeof(T); o++) {
      T* p = (T*)(end ? ar.e - n * sizeof(T) : ar.b) + (end ? -(ptrdiff_t)o : (ptrdiff_t)o);
      const T* f = (const T*)(end ? src->e - n * sizeof(T) : src->b);
      ex::at("N=%zu num=%zu offset %zd", N, n, (u8*)p - ar.b);
      const T v = lane<T>(n, 5);
      SafeFillN(n, v, d, p);
      for (size_t i = 0; i < n; i++) memcpy(ar.w(p + i), &v, sizeof v);
      ar.check("SafeFillN");
      SafeCopyN(n, d, f, p);
      memcpy(ar.w(p), f, n * sizeof(T));
      ar.check("SafeCopyN");
      if (ex::many()) return;
    }
  }
};
// MaskedLoad(Or), BlendedStore. Where accesses of unselected lanes may fault, the whole vector is accessible.
struct Masked {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    Arena& ar = A_();
    ar.fill();
    const size_t N = Lanes(d);
    alignas(64) T got[64], exp[64], no[64];
    for (size_t i = 0; i < N; i++) no[i] = lane<T>(i, 9);
    for (u64 m : masks(N)) for (int pos = 0; pos < 3; pos++) {
      const size_t first = m ? (size_t)__builtin_ctzll(m) : 0, last = m ? 63 - (size_t)__builtin_clzll(m) : 0;
      T* p;
      if (HWY_MEM_OPS_MIGHT_FAULT) p = pos == 0 ? (T*)ar.b : pos == 1 ? (T*)ar.e - N : (T*)ar.b + 3;
      else p = pos == 0 ? (T*)ar.b - first : pos == 1 ? (T*)ar.e - (m ? last + 1 : 0) : (T*)ar.b + 3;
      ex::at("N=%zu mask=%llx offset %zd", N, (unsigned long long)m, (u8*)p - ar.b);
      const auto M = mk(d, m);
      for (size_t i = 0; i < N; i++) { if (m >> i & 1) exp[i] = p[i]; else memset((void*)(exp + i), 0, sizeof(T)); }
      StoreU(MaskedLoad(M, d, p), d, got);
      SAME("MaskedLoad", got, exp, N);
      for (size_t i = 0; i < N; i++) exp[i] = m >> i & 1 ? p[i] : no[i];
      StoreU(MaskedLoadOr(LoadU(d, no), M, d, p), d, got);
      SAME("MaskedLoadOr", got, exp, N);
      BlendedStore(LoadU(d, no), M, d, p);
      for (size_t i = 0; i < N; i++) if (m >> i & 1) memcpy(ar.w(p + i), no + i, sizeof(T));
      ar.check("BlendedStore");
      for (size_t i = 0; i < N; i++) if (m >> i & 1) { memset((void*)(p + i), 0x5c, sizeof(T)); memset(ar.w(p + i), 0x5c, sizeof(T)); }
      if (ex::many()) return;
    }
    // 'If p is aligned, faults cannot happen unless the entire vector is inaccessible': vacuous here, an aligned vector never spans pages
  }
};
struct Inter {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    using V = Vec<D>;
    Arena& ar = A_();
    const size_t N = Lanes(d);
    alignas(64) T got[64], exp[4][64], in[4][64];
    ar.fill();
    for (int r = 0; r < 4; r++) for (size_t i = 0; i < N; i++) in[r][i] = lane<T>(i * 4 + (size_t)r);
    for (int R = 2; R <= 4; R++) for (size_t o = 0; o <= 64; o += sizeof(T)) for (int end = 0; end < 2; end++) {
      const size_t B = (size_t)R * N * sizeof(T);
      T* p = (T*)(end ? ar.e - B - o : ar.b + o);
      ex::at("N=%zu R=%d offset %zd", N, R, (u8*)p - ar.b);
      for (int r = 0; r < R; r++) for (size_t i = 0; i < N; i++) exp[r][i] = p[i * (size_t)R + (size_t)r];
      V v[4] = {Zero(d), Zero(d), Zero(d), Zero(d)};
      if (R == 2) LoadInterleaved2(d, p, v[0], v[1]);
      if (R == 3) LoadInterleaved3(d, p, v[0], v[1], v[2]);
      if (R == 4) LoadInterleaved4(d, p, v[0], v[1], v[2], v[3]);
      for (int r = 0; r < R; r++) {
        StoreU(v[r], d, got);
        SAME("LoadInterleaved", got, exp[r], N);
      }
      for (int r = 0; r < R; r++) {
        v[r] = LoadU(d, in[r]);
        for (size_t i = 0; i < N; i++) memcpy(ar.w(p + i * (size_t)R + (size_t)r), &in[r][i], sizeof(T));
      }
      if (R == 2) StoreInterleaved2(v[0], v[1], d, p);
      if (R == 3) StoreInterleaved3(v[0], v[1], v[2], d, p);
      if (R == 4) StoreInterleaved4(v[0], v[1], v[2], v[3], d, p);
      ar.check("StoreInterleaved");
      ar.fill();
      if (ex::many()) return;
    }
  }
};
struct Upper {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    if constexpr (HWY_TARGET != HWY_SCALAR && MaxLanes(D()) >= 2) {
      Arena& ar = A_();
      ar.fill();
      const size_t N = Lanes(d);
      alignas(64) T got[64], exp[64], in[64];
      for (size_t i = 0; i < N; i++) in[i] = lane<T>(i);
      for (size_t o = 0; o <= 64; o += sizeof(T)) for (int end = 0; end < 2; end++) {
        T* p = (T*)(end ? ar.e - N / 2 * sizeof(T) - o : ar.b + o);
        ex::at("N=%zu InsertIntoUpper offset %zd", N, (u8*)p - ar.b);
        for (size_t i = 0; i < N; i++) exp[i] = i < N / 2 ? in[i] : p[i - N / 2];
        StoreU(InsertIntoUpper(d, p, LoadU(d, in)), d, got);
        SAME("InsertIntoUpper", got, exp, N);
      }
    }
  }
};
template <class TN> struct Trunc_ {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    Arena& ar = A_();
    ar.fill();
    const size_t N = Lanes(d);
    alignas(64) T in[64];
    for (size_t o = 0; o <= 64; o += sizeof(TN)) for (int end = 0; end < 2; end++) for (int s = 0; s < 16; s++) {
      for (size_t i = 0; i < N; i++) in[i] = lane<T>(i, s * 11);
      TN* p = (TN*)(end ? ar.e - N * sizeof(TN) - o : ar.b + o);
      ex::at("N=%zu TruncateStore to %s offset %zd", N, tname<TN>(), (u8*)p - ar.b);
      TruncateStore(LoadU(d, in), d, p);
      for (size_t i = 0; i < N; i++) { const TN t = (TN)in[i]; memcpy(ar.w(p + i), &t, sizeof t); }
      ar.check("TruncateStore");
    }
  }
};
// Index vectors: all of {0..R-1}^N for N <= 2 (R = 16) and N = 4 (R = 5, thorough 8); rotations, strides and repeats beyond.
template <class F> void indices(size_t N, F f) {
  u64 ix[64];
  const u64 R = N <= 2 ? 24 : N == 4 ? (ex::thorough() ? 9 : 6) : 0;
  if (R) {
    u64 tot = 1;
    for (size_t i = 0; i < N; i++) tot *= R;
    for (u64 t = 0; t < tot; t++) {
      u64 q = t;
      for (size_t i = 0; i < N; i++) ix[i] = q % R, q /= R;
      f(ix);
      if (ex::many()) return;
    }
    return;
  }
  const size_t L = 3 * N;
  for (size_t s = 0; s < L; s++) for (size_t m = 0; m < L; m++) {  // affine
    for (size_t i = 0; i < N; i++) ix[i] = (s + m * i) % L;
    f(ix);
  }
  for (size_t i0 = 0; i0 < N; i0++) for (size_t i1 = 0; i1 < N; i1++) for (size_t base : {size_t(0), L}) {  // one lane equal to another, or displaced
    for (size_t i = 0; i < N; i++) ix[i] = i == i0 ? base + i1 : i;
    f(ix);
  }
}
struct Gath {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const RebindToSigned<D> di;
    using TI = TFromD<decltype(di)>;
    Arena& ar = A_();
    ar.fill();
    const size_t N = Lanes(d);
    alignas(64) T got[64], exp[64], no[64];
    alignas(64) TI ix[64], wild[64];
    for (size_t i = 0; i < N; i++) no[i] = lane<T>(i, 9);
    indices(N, [&](const u64* idx) HWY_ATTR {
      u64 hi = 0;
      for (size_t i = 0; i < N; i++) hi = idx[i] > hi ? idx[i] : hi;
      for (int end = 0; end < 2; end++) {
        const T* base = end ? (const T*)ar.e - hi - 1 : (const T*)ar.b;
        ex::at("N=%zu indices %llu,%llu,%llu,%llu.. %s", N, (unsigned long long)idx[0], (unsigned long long)idx[1], (unsigned long long)idx[2], (unsigned long long)idx[3], end ? "end" : "start");
        for (size_t i = 0; i < N; i++) ix[i] = (TI)(idx[i] * sizeof(T)), exp[i] = base[idx[i]];
        StoreU(GatherOffset(d, base, LoadU(di, ix)), d, got);
        SAME("GatherOffset", got, exp, N);
        for (size_t i = 0; i < N; i++) ix[i] = (TI)idx[i];
        StoreU(GatherIndex(d, base, LoadU(di, ix)), d, got);
        SAME("GatherIndex", got, exp, N);
      }
    });
    // unselected lanes have indices far outside accessible memory
    static const size_t kFar = 1 << 20;
    auto sel = [&](u64 m, const T* base, int r) HWY_ATTR {
      for (size_t i = 0; i < N; i++) {
        ix[i] = (TI)((i * 7 + (size_t)r * 5) % 61);
        wild[i] = m >> i & 1 ? ix[i] : (TI)(i & 1 ? kFar * (i + 1) : kFar);
      }
    };
    const T* base = (const T*)ar.b;
    for (int r = 0; r < 2; r++) {
      for (u64 m : masks(N)) {
        ex::at("N=%zu mask=%llx", N, (unsigned long long)m);
        sel(m, base, r);
        const auto M = mk(d, m);
        for (size_t i = 0; i < N; i++) exp[i] = m >> i & 1 ? base[ix[i]] : no[i];
        StoreU(MaskedGatherIndexOr(LoadU(d, no), M, d, base, LoadU(di, wild)), d, got);
        SAME("MaskedGatherIndexOr", got, exp, N);
        for (size_t i = 0; i < N; i++) exp[i] = m >> i & 1 ? base[ix[i]] : T(0);
        StoreU(MaskedGatherIndex(M, d, base, LoadU(di, wild)), d, got);
        SAME("MaskedGatherIndex", got, exp, N);
      }
      for (size_t n = 0; n <= 2 * N + 1; n++) {
        const size_t c = n < N ? n : N;
        ex::at("N=%zu n=%zu", N, n);
        sel((1ull << c) - 1, base, r);
        for (size_t i = 0; i < N; i++) exp[i] = i < c ? base[ix[i]] : T(0);
        StoreU(GatherIndexN(d, base, LoadU(di, wild), n), d, got);
        SAME("GatherIndexN", got, exp, N);
        for (size_t i = 0; i < N; i++) exp[i] = i < c ? base[ix[i]] : no[i];
        StoreU(GatherIndexNOr(LoadU(d, no), d, base, LoadU(di, wild), n), d, got);
        SAME("GatherIndexNOr", got, exp, N);
      }
    }
  }
};
struct Scat {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const RebindToSigned<D> di;
    using TI = TFromD<decltype(di)>;
    Arena& ar = A_();
    ar.fill();
    const size_t N = Lanes(d);
    alignas(64) T in[64];
    alignas(64) TI ix[64], wild[64];
    for (size_t i = 0; i < N; i++) in[i] = lane<T>(i);
    u64 cnt = 0;
    indices(N, [&](const u64* idx) HWY_ATTR {
      u64 hi = 0;
      for (size_t i = 0; i < N; i++) hi = idx[i] > hi ? idx[i] : hi;
      for (int end = 0; end < 2; end++) {
        T* base = end ? (T*)ar.e - hi - 1 : (T*)ar.b;
        ex::at("N=%zu indices %llu,%llu,%llu,%llu.. %s", N, (unsigned long long)idx[0], (unsigned long long)idx[1], (unsigned long long)idx[2], (unsigned long long)idx[3], end ? "end" : "start");
        for (size_t i = 0; i < N; i++) ix[i] = (TI)(idx[i] * sizeof(T)), memcpy(ar.w(base + idx[i]), in + i, sizeof(T));
        ScatterOffset(LoadU(d, in), d, base, LoadU(di, ix));
        ar.check("ScatterOffset");
        for (size_t i = 0; i < N; i++) {
          in[i] = lane<T>(i, (int)(++cnt % 127));
          ix[i] = (TI)idx[i], memcpy(ar.w(base + idx[i]), in + i, sizeof(T));
        }
        ScatterIndex(LoadU(d, in), d, base, LoadU(di, ix));
        ar.check("ScatterIndex");
      }
    });
    static const size_t kFar = 1 << 20;
    T* base = (T*)ar.b;
    for (int r = 0; r < 2; r++) {
      auto sel = [&](u64 m) HWY_ATTR {
        for (size_t i = 0; i < N; i++) {
          in[i] = lane<T>(i, (int)(++cnt % 127));
          wild[i] = m >> i & 1 ? (TI)((i * 7 + (size_t)r * 5) % 61) : (TI)(kFar * (1 + (i & 3)));
          if (m >> i & 1) memcpy(ar.w(base + wild[i]), in + i, sizeof(T));
        }
      };
      for (u64 m : masks(N)) {
        ex::at("N=%zu mask=%llx", N, (unsigned long long)m);
        sel(m);
        MaskedScatterIndex(LoadU(d, in), mk(d, m), d, base, LoadU(di, wild));
        ar.check("MaskedScatterIndex");
      }
      for (size_t n = 0; n <= 2 * N + 1; n++) {
        ex::at("N=%zu n=%zu", N, n);
        sel((1ull << (n < N ? n : N)) - 1);
        ScatterIndexN(LoadU(d, in), d, base, LoadU(di, wild), n);
        ar.check("ScatterIndexN");
      }
    }
  }
};
// Indices near the largest that fit the index type: 16 GiB of address space, one accessible page every 2^29 bytes (and the last).
// Indices near the largest that fit the index type, in a mostly inaccessible region.
struct Big {
  template <class D> void operator()(D d) const {
    using T = TFromD<D>;
    const RebindToSigned<D> di;
    using TI = TFromD<decltype(di)>;
    const size_t N = Lanes(d), span = (size_t)1 << (sizeof(T) == 4 ? 33 : 35);
    static u8* map = (u8*)mmap(nullptr, ((size_t)1 << 35), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED) { EX_FAIL("cannot reserve address space"); return; }
    std::vector<u64> ix;
    for (size_t o = 0; o <= span; o += span / 16) {
      u8* pg = map + o - (o == span ? kPage : 0);
      mprotect(pg, kPage, PROT_READ | PROT_WRITE);
      for (size_t k : {size_t(0), size_t(1), kPage / sizeof(T) - 1}) {
        ix.push_back((size_t)(pg - map) / sizeof(T) + k);
        const T v = lane<T>(ix.size(), 1);
        memcpy(map + ix.back() * sizeof(T), &v, sizeof v);
      }
    }
    const T* base = (const T*)map;
    alignas(64) T got[64], exp[64];
    alignas(64) TI o[64];
    const size_t L = ix.size();
    for (int off = 0; off < 2; off++) for (size_t s = 0; s < L; s++) for (size_t m = 0; m < L; m += N == 1 ? L : 1) {
      ex::at("N=%zu large %s s=%zu m=%zu", N, off ? "offsets" : "indices", s, m);
      bool ok = true;
      for (size_t i = 0; i < N; i++) {
        const u64 q = ix[(s + m * i) % L];
        ok &= !off || sizeof(T) == 8 || q * sizeof(T) < (1ull << 31);
        o[i] = (TI)(off ? q * sizeof(T) : q);
        exp[i] = base[q];
      }
      if (!ok) continue;
      StoreU(off ? GatherOffset(d, base, LoadU(di, o)) : GatherIndex(d, base, LoadU(di, o)), d, got);
      SAME("Gather", got, exp, N);
      for (size_t i = 0; i < N; i++) exp[i] = lane<T>(i + s * 3 + m, off + 2);
      if (off) ScatterOffset(LoadU(d, exp), d, (T*)map, LoadU(di, o));
      else ScatterIndex(LoadU(d, exp), d, (T*)map, LoadU(di, o));
      for (size_t i = 0; i < N; i++) {
        bool later = false;
        for (size_t j = i + 1; j < N; j++) later |= o[j] == o[i];
        if (!later && memcmp(map + (u64)o[i] * (off ? 1 : sizeof(T)), exp + i, sizeof(T))) EX_FAIL("Scatter: lane %zu not stored", i);
      }
      ex::add();
      if (ex::many()) return;
    }
  }
};
template <class F, class... Ts> void g(const char* n, F f) { groups<Ts...>(n, [=](auto d) HWY_ATTR { f(d); }); }
}  // namespace
void all() {
#define SPEC float16_t, bfloat16_t
#if PART == 0
  g<Plain, ALL_, SPEC>("LoadStore", Plain());
  g<Count, ALL_, SPEC>("LoadN_StoreN", Count());
  g<Dup, ALLH_>("LoadDup128", Dup());
  g<Safe, ALLH_>("SafeN", Safe());
#elif PART == 1
  g<Masked, ALL_, SPEC>("Masked", Masked());
  g<Inter, ALL_, SPEC>("Interleaved", Inter());
  g<Upper, ALLH_>("InsertIntoUpper", Upper());
  g<Trunc_<u8>, u16, u32, u64>("TruncateStore<u8>", Trunc_<u8>());
  g<Trunc_<u16>, u32, u64>("TruncateStore<u16>", Trunc_<u16>());
  g<Trunc_<u32>, u64>("TruncateStore<u32>", Trunc_<u32>());
#elif PART == 2
  g<Gath, UI32_, UI64_, F_>("Gather", Gath());
  g<Scat, UI32_, UI64_, F_>("Scatter", Scat());
#ifndef __wasm__
  g<Big, UI32_, UI64_, F_>("LargeIndices", Big());
#endif
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
