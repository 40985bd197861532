// C20 (SELECT=0): sorting; C21 (SELECT=1): partial sort and select. The public
// functions of one key type, compiled for one target, on enumerated arrays of
// ranks; the expected array follows from counting the ranks.

#include <algorithm>
#include <thread>
#include "ex.h"
#include <sys/random.h>
#ifndef SELECT
#define SELECT 0
#endif
#if PART == 0
#include <hwy/contrib/sort/vqsort_u16a.cc>
#include <hwy/contrib/sort/vqsort_u16d.cc>
#elif PART == 1
#include <hwy/contrib/sort/vqsort_i16a.cc>
#include <hwy/contrib/sort/vqsort_i16d.cc>
#elif PART == 2
#include <hwy/contrib/sort/vqsort_u32a.cc>
#include <hwy/contrib/sort/vqsort_u32d.cc>
#elif PART == 3
#include <hwy/contrib/sort/vqsort_i32a.cc>
#include <hwy/contrib/sort/vqsort_i32d.cc>
#elif PART == 4
#include <hwy/contrib/sort/vqsort_u64a.cc>
#include <hwy/contrib/sort/vqsort_u64d.cc>
#elif PART == 5
#include <hwy/contrib/sort/vqsort_i64a.cc>
#include <hwy/contrib/sort/vqsort_i64d.cc>
#elif PART == 6
#include <hwy/contrib/sort/vqsort_f32a.cc>
#include <hwy/contrib/sort/vqsort_f32d.cc>
#elif PART == 7
#include <hwy/contrib/sort/vqsort_f64a.cc>
#include <hwy/contrib/sort/vqsort_f64d.cc>
#elif PART == 8
#include <hwy/contrib/sort/vqsort_kv64a.cc>
#include <hwy/contrib/sort/vqsort_kv64d.cc>
#elif PART == 9
#include <hwy/contrib/sort/vqsort_128a.cc>
#include <hwy/contrib/sort/vqsort_128d.cc>
#elif PART == 10
#include <hwy/contrib/sort/vqsort_kv128a.cc>
#include <hwy/contrib/sort/vqsort_kv128d.cc>
#elif PART == 11
#include <hwy/contrib/sort/vqsort_f16a.cc>
#include <hwy/contrib/sort/vqsort_f16d.cc>
#endif
#include <hwy/contrib/sort/vqsort.cc>

typedef uint8_t u8;
typedef uint16_t u16;
typedef int16_t i16;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint64_t u64;
typedef int64_t i64;

// The generator is seeded through this: the seed is part of the enumerated case.
static u64 g_seed[2];
static bool g_seed_fail;
extern "C" ssize_t getrandom(void* p, size_t n, unsigned) {
  if (g_seed_fail) return -1;
  memcpy(p, g_seed, n < 16 ? n : 16);
  return (ssize_t)n;
}

#ifdef DEEP
// The recursion with few levels left, after which it resorts to another algorithm.
static size_t g_levels;
HWY_BEFORE_NAMESPACE();
namespace deep {
namespace hd = hwy::HWY_NAMESPACE::detail;
template <bool kSel, class T, class O> void run(T* p, size_t n, size_t k, O) {
  const hd::MakeTraits<T, O> st;
  using L = typename decltype(st)::LaneType;
  const hwy::HWY_NAMESPACE::SortTag<L> d;
  constexpr size_t kLPK = st.LanesPerKey();
  HWY_ALIGN L buf[hwy::SortConstants::BufBytes<L, kLPK>(HWY_MAX_BYTES) / sizeof(L)];
  u64 state[3] = {g_seed[0], g_seed[1], 1};
  L* keys = (L*)p;
  if (hd::HandleSpecialCases(d, st, keys, n * kLPK, buf)) return;
  if (kSel) hd::Recurse<hd::RecurseMode::kSelect>(d, st, keys, n * kLPK, buf, state, g_levels, k * kLPK);
  else hd::Recurse<hd::RecurseMode::kSort>(d, st, keys, n * kLPK, buf, state, g_levels);
}
template <class T, class O> HWY_NOINLINE void VQSort(T* p, size_t n, O o) { run<false>(p, n, 0, o); }
template <class T, class O> HWY_NOINLINE void VQSelect(T* p, size_t n, size_t k, O o) { run<true>(p, n, k, o); }
template <class T, class O> HWY_NOINLINE void VQPartialSort(T* p, size_t n, size_t, O o) { run<false>(p, n, 0, o); }
}  // namespace deep
HWY_AFTER_NAMESPACE();
#define VQ deep
#define DEEP_ 1
#else
#define VQ hwy
#define DEEP_ 0
#endif
namespace {
const u32 kNaN = 0xFFFFFFFF;
const size_t kMax = size_t(1) << 21;  // bytes
// Maps an integer in [0, top()] to a key, in increasing order.
template <class T> struct Key {
  static constexpr bool kKV = false, kFloat = false;
  static u64 top() { return sizeof(T) == 8 ? ~0ull : (1ull << (sizeof(T) * 8 % 64)) - 1; }
  static T make(u64 v, u64) { return (T)(std::is_signed<T>::value ? v + (1ull << (sizeof(T) * 8 - 1)) : v); }
  static bool same(T a, T b) { return a == b; }
  static bool isnan(T) { return false; }
  static T nan(u64) { return T(); }
};
template <class T, class U> struct FKey {
  static constexpr bool kKV = false, kFloat = true;
  static constexpr U kInf = sizeof(T) == 2 ? (U)0x7C00 : sizeof(T) == 4 ? (U)0x7F800000u : (U)0x7FF0000000000000ull;
  static u64 top() { return 2 * (u64)kInf; }
  static T make(u64 v, u64) {
    U b = v >= kInf ? (U)(v - kInf) : (U)(((U)kInf - (U)v) | (U)1 << (sizeof(U) * 8 - 1));
    T r;
    memcpy((void*)&r, &b, sizeof b);
    return r;
  }
  static U bits(T a) { U b; memcpy(&b, &a, sizeof b); return b; }
  static bool isnan(T a) { return (U)(bits(a) << 1) > (U)(kInf << 1); }
  static bool same(T a, T b) { return bits(a) == bits(b); }
  static T nan(u64 i) {
    U b = (U)(kInf | (i % 3 == 0 ? (U)1 << (sizeof(T) == 2 ? 9 : sizeof(T) == 4 ? 22 : 51) : i % 3 == 1 ? (U)1 : (U)(kInf - 1) & (U)~kInf) | (i & 1 ? (U)1 << (sizeof(U) * 8 - 1) : 0));
    if (!(U)(b & ~kInf & ~((U)1 << (sizeof(U) * 8 - 1)))) b |= 1;
    T r;
    memcpy((void*)&r, &b, sizeof b);
    return r;
  }
};
template <> struct Key<float> : FKey<float, u32> {};
template <> struct Key<double> : FKey<double, u64> {};
template <> struct Key<hwy::float16_t> : FKey<hwy::float16_t, u16> {};
template <> struct Key<hwy::K32V32> {
  static constexpr bool kKV = true, kFloat = false;
  typedef hwy::K32V32 T;
  static u64 top() { return 0xFFFFFFFF; }
  static T make(u64 v, u64 val) { T r; r.key = (u32)v; r.value = (u32)val; return r; }
  static bool same(T a, T b) { return a.key == b.key; }
  static bool isnan(T) { return false; }
  static T nan(u64) { return T(); }
};
template <> struct Key<hwy::K64V64> {
  static constexpr bool kKV = true, kFloat = false;
  typedef hwy::K64V64 T;
  static u64 top() { return ~0ull; }
  static T make(u64 v, u64 val) { T r; r.key = v; r.value = val; return r; }
  static bool same(T a, T b) { return a.key == b.key; }
  static bool isnan(T) { return false; }
  static T nan(u64) { return T(); }
};
int g_split;  // how 128-bit keys use their halves
template <> struct Key<hwy::uint128_t> {
  static constexpr bool kKV = false, kFloat = false;
  typedef hwy::uint128_t T;
  static u64 top() { return ~0ull; }
  static T make(u64 v, u64) {
    T r;
    if (g_split == 0) r.hi = v, r.lo = ~v;
    else if (g_split == 1) r.hi = 5, r.lo = v;
    else if (g_split == 2) r.hi = v >> 32, r.lo = v & 0xFFFFFFFF;
    else r.hi = v >> 1, r.lo = v & 1 ? ~0ull : 0;
    return r;
  }
  static bool same(T a, T b) { return a.hi == b.hi && a.lo == b.lo; }
  static bool isnan(T) { return false; }
  static T nan(u64) { return T(); }
};
const int kModes = 4;
// Key for rank r of `count` ranks: over the whole range including both
// extremes, or dense in the middle, at the bottom, or at the top.
template <class T> u64 at_rank(u64 r, u64 count, int mode) {
  const u64 top = Key<T>::top();
  if (mode == 0) return count < 2 ? 0 : r == count - 1 ? top : r * (top / (count - 1));
  if (mode == 1) return top / 2 - count / 2 + r;
  if (mode == 2) return r;
  return top - (count - 1) + r;
}

template <class T> struct Sorter {
  typedef Key<T> K;
  ex::Guard g{kMax};
  std::vector<u32> cnt, order;
  std::vector<T> in;
  std::vector<u8> seen;
  size_t n = 0, k = 0, nan = 0;
  u64 count = 1;
  int mode = 0, where = 0;
  bool desc = false;
  T* p = nullptr;
  T key(u32 r, u64 val) { return r == kNaN ? K::nan(val) : K::make(at_rank<T>(r, count, mode), val); }
  u64 value(size_t i) const { return mode == 3 ? ~(u64)i : mode == 1 ? (u64)(n - i) : (u64)i; }
  size_t from_value(u64 v) const { return (size_t)(mode == 3 ? ~v : mode == 1 ? n - v : v); }
  static u64 val_of(const hwy::K32V32& a) { return a.value; }
  static u64 val_of(const hwy::K64V64& a) { return a.value; }
  template <class U> static u64 val_of(const U&) { return 0; }
  u64 value_of(const T& a) const { return sizeof(T) == 8 && mode == 3 ? (u64)(i64)(i32)val_of(a) : val_of(a); }

  bool prepare(const u32* r, size_t n_, u64 count_) {
    n = n_, count = count_;
    if (n * sizeof(T) + 512 > kMax) return false;
    p = where == 0 ? (T*)g.end() - n : (T*)g.begin() + (where - 1);
    memset((u8*)(where == 0 ? (u8*)p - 256 : (u8*)(p + n)), 0xA7, 256);
    if (where > 1) memset(g.begin(), 0xA7, (where - 1) * sizeof(T));
    cnt.assign(count, 0);
    nan = 0;
    for (size_t i = 0; i < n; i++) {
      p[i] = key(r[i], value(i));
      if (r[i] == kNaN) nan++;
      else cnt[r[i]]++;
    }
    // ranks in the requested order
    order.resize(n);
    size_t o = 0;
    for (u64 q = 0; q < count; q++) {
      const u32 rr = (u32)(desc ? count - 1 - q : q);
      for (u32 c = 0; c < cnt[rr]; c++) order[o++] = rr;
    }
    while (o < n) order[o++] = kNaN;
    return true;
  }
  void outside() {
    const u8* c = where == 0 ? (u8*)p - 256 : (u8*)(p + n);
    for (int i = 0; i < 256; i++) if (c[i] != 0xA7) { EX_FAIL("wrote %s the array", where == 0 ? "before" : "after"); break; }
    if (where > 1) for (u8* q = g.begin(); q < (u8*)p; q++) if (*q != 0xA7) { EX_FAIL("wrote before the array"); break; }
  }
  bool is(const T& a, u32 r) { return r == kNaN ? K::isnan(a) : K::same(a, key(r, 0)); }
  // rank of a key at which the array is checked
  void sorted(size_t upto) {
    for (size_t i = 0; i < upto; i++) if (!is(p[i], order[i])) { EX_FAIL("position %zu of %zu: wrong key", i, n); return; }
  }
  void payloads(const u32* r) {
    if constexpr (K::kKV) {
      seen.assign(n, 0);
      for (size_t i = 0; i < n; i++) {
        const size_t j = from_value(value_of(p[i]));
        if (j >= n || seen[j]++ || !is(p[i], r[j])) { EX_FAIL("position %zu: key and value do not belong together, or occur twice", i); return; }
      }
    }
  }
  // whether p is a permutation of the input keys (for select)
  void permutation(const u32* r) {
    if constexpr (K::kKV) return payloads(r);
    u64 sum = 0, want = 0;
    size_t nans = 0;
    for (size_t i = 0; i < n; i++) {
      if (K::isnan(p[i])) nans++;
      else sum += mix(p[i]);
      if (r[i] != kNaN) want += mix(key(r[i], 0));
    }
    if (nans != nan) EX_FAIL("%zu NaN, should be %zu", nans, nan);
    else if (sum != want) EX_FAIL("not a permutation of the input");
  }
  static u64 mix1(u64 h) {
    h ^= h >> 33, h *= 0xff51afd7ed558ccdull, h ^= h >> 33, h *= 0xc4ceb9fe1a85ec53ull;
    return h ^ (h >> 33);
  }
  static u64 mix(const T& v) {
    u64 w[2] = {0, 0};
    memcpy(w, &v, sizeof(T));
    return mix1(mix1(w[0] + 0x9E3779B97F4A7C15ull) + w[1]);
  }
  // position class of a key: index in `order` of its first occurrence
  bool not_after(const T& a, const T& b) {  // a not later than b in the order
    if (K::isnan(b)) return true;
    if (K::isnan(a)) return false;
    return desc ? !lt(a, b) : !lt(b, a);
  }
  static bool lt(const hwy::K32V32& a, const hwy::K32V32& b) { return a.key < b.key; }
  static bool lt(const hwy::K64V64& a, const hwy::K64V64& b) { return a.key < b.key; }
  static bool lt(const hwy::uint128_t& a, const hwy::uint128_t& b) { return a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo; }
  static bool lt(const hwy::float16_t& a, const hwy::float16_t& b) { return hwy::F32FromF16(a) < hwy::F32FromF16(b); }
  template <class U> static bool lt(const U& a, const U& b) { return a < b; }

  void sort(const u32* r, size_t n_, u64 count_) {
    if (!prepare(r, n_, count_)) return;
    ex::add();
    if (desc) VQ::VQSort(p, n, hwy::SortDescending());
    else VQ::VQSort(p, n, hwy::SortAscending());
    sorted(n);
    payloads(r);
    outside();
  }
  void partial(const u32* r, size_t n_, u64 count_, size_t k_) {
    if (!prepare(r, n_, count_)) return;
    k = k_;
    ex::add();
    if (desc) VQ::VQPartialSort(p, n, k, hwy::SortDescending());
    else VQ::VQPartialSort(p, n, k, hwy::SortAscending());
    sorted(k);
    permutation(r);
    outside();
  }
  void select(const u32* r, size_t n_, u64 count_, size_t k_) {
    if (!prepare(r, n_, count_)) return;
    k = k_;
    ex::add();
    if (desc) VQ::VQSelect(p, n, k, hwy::SortDescending());
    else VQ::VQSelect(p, n, k, hwy::SortAscending());
    if (!is(p[k], order[k])) EX_FAIL("position k=%zu of %zu: wrong key", k, n);
    for (size_t i = 0; i < k; i++) if (!not_after(p[i], p[k])) { EX_FAIL("position %zu holds a later key than k=%zu", i, k); break; }
    for (size_t i = k + 1; i < n; i++) if (!not_after(p[k], p[i])) { EX_FAIL("position %zu holds an earlier key than k=%zu", i, k); break; }
    permutation(r);
    outside();
  }
};

// ------------------------------------------------------------------ patterns
const int kPatterns = 22;
const char* const kPatName[kPatterns] = {"sorted", "reversed", "organ pipe", "all equal", "two values alternating", "three values periodic", "five values periodic", "blocks of two", "blocks of three", "multiplicative 7", "multiplicative 613", "sorted with first key last", "sorted with last key first", "valley", "mostly least, some greatest", "mostly greatest, some least", "middle mostly, extremes rare", "halves swapped", "two values: 1 in 64", "sixteen values", "rare extremes at ends", "lane stripes"};
u64 pattern(int q, size_t n, std::vector<u32>& r) {
  r.resize(n);
  u64 c = n ? n : 1;
  for (size_t i = 0; i < n; i++) {
    u64 v = 0;
    switch (q) {
      case 0: v = i; break;
      case 1: v = n - 1 - i; break;
      case 2: v = i < n / 2 ? 2 * i : 2 * (n - 1 - i) + 1; c = 2 * n + 2; break;
      case 3: v = 0; c = 1; break;
      case 4: v = i & 1; c = 2; break;
      case 5: v = i % 3; c = 3; break;
      case 6: v = (i * 2) % 5; c = 5; break;
      case 7: v = i >= n / 2 ? 0 : 1; c = 2; break;
      case 8: v = 2 - i * 3 / n; c = 3; break;
      case 9: v = (i * 7919) % 65521 % 4096; c = 4096; break;
      case 10: v = (i * 613 + 5) % 1021; c = 1021; break;
      case 11: v = i + 1 == n ? 0 : i + 1; break;
      case 12: v = i == 0 ? n - 1 : i - 1; break;
      case 13: v = i < n / 2 ? n - 1 - 2 * i : 2 * (i - n / 2); c = n + 2; break;
      case 14: v = i % 37 == 5 ? 1 : 0; c = 2; break;
      case 15: v = i % 41 == 7 ? 0 : 1; c = 2; break;
      case 16: v = i == n / 3 ? 0 : i == n / 2 ? 2 : 1; c = 3; break;
      case 17: v = (i + n / 2) % n; break;
      case 18: v = i % 64 == 63; c = 2; break;
      case 19: v = (i * 11 + i / 16) & 15; c = 16; break;
      case 20: v = i == 0 ? 3 : i + 1 == n ? 0 : 1 + (i & 1); c = 4; break;
      case 21: v = (i & 15) * 2 + (i / 16 & 1); c = 32; break;
    }
    r[i] = (u32)v;
  }
  return c;
}
template <class T> struct Run {
  Sorter<T> s;
  std::vector<u32> r;
  const char* tn;
  // The largest size handled without partitioning is at most this.
  size_t base = 256;
  template <class F> void ks(size_t n, bool all, F f) {
    if (all || n < 12) { for (size_t k = 0; k <= n; k++) f(k); return; }
    std::vector<size_t> v = {0, 1, 2, n / 7, n / 3, n / 2, n / 2 + 1, n * 2 / 3, n - 9, n - 3, n - 2, n - 1, n};
    for (size_t k : v) f(k);
  }
  void one(const char* what, size_t n, u64 count, int tag, bool allk) {
#if SELECT
    ks(n, allk, [&](size_t k) {
      ex::at("%s %s %s n %zu k %zu case %d mode %d at %d seed %llx %llx", tn, s.desc ? "descending" : "ascending", what, n, k, tag, s.mode, s.where, (unsigned long long)g_seed[0], (unsigned long long)g_seed[1]);
      s.partial(r.data(), n, count, k);
      if (k < n) s.select(r.data(), n, count, k);
    });
#else
    (void)allk;
    ex::at("%s %s %s n %zu case %d mode %d at %d seed %llx %llx", tn, s.desc ? "descending" : "ascending", what, n, tag, s.mode, s.where, (unsigned long long)g_seed[0], (unsigned long long)g_seed[1]);
    s.sort(r.data(), n, count);
#endif
  }
  void tiny() {
    for (int mode = 0; mode < kModes; mode++) {
      s.mode = mode;
      s.where = mode & 1;
      // all arrays of two values, all of up to four values
      for (size_t n = 0; n <= (SELECT ? 7 : ex::thorough() ? 14 : 11); n++) for (u32 m = 0; m < 1u << n; m++) {
        r.resize(n);
        for (size_t i = 0; i < n; i++) r[i] = m >> i & 1;
        one("two-valued", n, 2, (int)m, true);
        if (ex::many()) return;
      }
      for (size_t n = 1; n <= (SELECT ? 4 : 5); n++) for (u32 m = 0; m < 1u << (2 * n); m++) {
        r.resize(n);
        for (size_t i = 0; i < n; i++) r[i] = m >> (2 * i) & 3;
        one("four-valued", n, 4, (int)m, true);
        if (ex::many()) return;
      }
      // all permutations
      for (size_t n = 2; n <= (SELECT ? 5 : ex::thorough() ? 8 : 7); n++) {
        r.resize(n);
        for (size_t i = 0; i < n; i++) r[i] = (u32)i;
        int t = 0;
        do {
          one("permutation", n, n, t++, true);
          if (ex::many()) return;
        } while (std::next_permutation(r.begin(), r.end()));
      }
    }
  }
  // Sizes sorted by one network: columns of 8 or 16 rows, then merges.
  void network() {
    for (size_t cols : {1, 2, 4, 8, 16}) for (size_t rows : {8, 16}) {
      const size_t n = rows * cols;
      if (n > base) continue;
      for (int mode = 0; mode < 4; mode += 3) {
        s.mode = mode, s.where = mode ? 1 : 0;
        // every two-valued column, different ones in different columns
        const u32 pats = 1u << rows, step = ex::thorough() || rows == 8 ? 1 : 3;
        for (u32 m = 0; m < pats; m += step) {
          r.resize(n);
          for (size_t c = 0; c < cols; c++) {
            const u32 q = (m + (u32)c * 0x9D3) & (pats - 1);
            for (size_t i = 0; i < rows; i++) r[i * cols + c] = q >> i & 1;
          }
          one("columns", n, 2, (int)m, false);
          if (ex::many()) return;
        }
        // every number of ones per column (two columns freely, the others none, half or all)
        for (size_t c1 = 0; c1 < cols; c1++) for (size_t c2 = c1; c2 < cols; c2++) {
          if (!ex::thorough() && cols > 4 && (c2 - c1 > 2 && c2 + c1 != cols - 1)) continue;
          for (size_t other = 0; other <= rows; other += rows / 2) for (size_t a = 0; a <= rows; a++) for (size_t b = 0; b <= (c1 == c2 ? 0 : rows); b++) {
            r.assign(n, 0);
            for (size_t c = 0; c < cols; c++) {
              const size_t ones = c == c1 ? a : c == c2 ? b : other;
              for (size_t i = rows - ones; i < rows; i++) r[i * cols + c] = 1;
            }
            one("column counts", n, 2, (int)(c1 * 10000000 + c2 * 100000 + other / (rows / 2) * 10000 + a * 100 + b), false);
            if (ex::many()) return;
          }
        }
      }
    }
  }
  // Every length; structured patterns and one outlier at each position.
  void lengths() {
    const size_t last = ex::thorough() ? base * 5 + 40 : base * 2 + 70;
    for (size_t n = 2; n <= last; n++) {
      for (int q = 0; q < kPatterns; q++) {
        if (SELECT && !ex::thorough() && (n + q) % 3 && n > 70) continue;
        const u64 c = pattern(q, n, r);
        s.mode = (int)(n + q) % kModes, s.where = (int)((n * 3 + q) % 5);
        one(kPatName[q], n, c, 0, false);
        if (ex::many()) return;
        if constexpr (Key<T>::kFloat && !DEEP_) {  // with NaN
          for (int how = 0; how < 4; how++) {
            if (q % 4 != how) continue;
            std::vector<u32> keep = r;
            if (how == 0) r[n - 1] = kNaN;
            if (how == 1) r[0] = kNaN;
            if (how == 2) for (size_t i = 0; i < n; i++) if (i % 5 == n % 5) r[i] = kNaN;
            if (how == 3) for (size_t i = n / 4; i < n; i++) if (i % 7) r[i] = kNaN;
            one(kPatName[q], n, c, 100 + how, false);
            r = keep;
            if (ex::many()) return;
          }
        }
      }
    }
  }
  void outliers() {
    std::vector<size_t> ns = {base / 2 - 1, base - 1, base, base + 1, base + 2, base + 9, base + 31, base + 63, base * 2 + 5};
    for (size_t n : ns) for (size_t pos = 0; pos < n; pos++) for (int how = 0; how < 6; how++) {
      if (SELECT && (pos + how) % 5) continue;
      r.assign(n, 1);
      u64 c = 3;
      s.mode = how % 2 ? 0 : 3, s.where = (int)(pos % 3);
      if (how == 0) r[pos] = 0;
      if (how == 1) r[pos] = 2;
      if (how == 2) for (size_t i = 0; i < n; i++) r[i] = i < pos ? 2 : 0;
      if (how == 3) for (size_t i = 0; i < n; i++) r[i] = i < pos ? 0 : i == pos ? 1 : 2;
      if (how == 4) r[pos] = 0, r[n - 1 - pos] = 2;
      if (how == 5) { for (size_t i = 0; i < n; i++) r[i] = (u32)(i + 1); r[pos] = 0; r[n - 1 - pos] = (u32)(n + 1); c = n + 2; }
      one("outlier", n, c, (int)(pos * 10 + how), false);
      if (ex::many()) return;
      if constexpr (Key<T>::kFloat && !DEEP_) {
        if (how < 3) { r[pos] = kNaN; one("NaN", n, c, (int)(pos * 10 + how), false); }
      }
    }
  }
  void large() {
    s.where = 0;
    for (size_t n : {(size_t)1500, (size_t)4097, (size_t)20011, ex::thorough() ? (size_t)120007 : (size_t)20000}) for (int q = 0; q < kPatterns; q++) {
      if (SELECT && n > 5000 && q % 3) continue;
      const u64 c = pattern(q, n, r);
      if (c > Key<T>::top()) continue;
      s.mode = q % kModes, s.where = q % 3;
      one(kPatName[q], n, c, 0, false);
      if (ex::many()) return;
    }
  }
  // The first samples are taken from every pair of chunks.
  void seeds() {
#ifndef __wasm__
    std::vector<std::thread> t;
    for (size_t n : {base + 1, base + 40, base * 2 + 17}) for (int q : {0, 2, 5, 8, 10, 16, 19, 20}) {
      if (SELECT && q != 8 && q != 10 && q != 19) continue;
      for (int x = 0; x < 64; x++) for (int y = 0; y < (ex::thorough() ? 16 : 4); y++) {
        g_seed[0] = (u64)(x >> 3) << 61 | (u64)(x & 7) << 29;
        g_seed[1] = y == 0 ? 0 : y == 1 ? ~0ull : (u64)y * 0x9E3779B97F4A7C15ull;
        std::thread([&] {
          const u64 c = pattern(q, n, r);
          s.mode = q % kModes, s.where = x % 3;
          one(kPatName[q], n, c, x, false);
        }).join();
        if (ex::many()) return;
      }
    }
    g_seed[0] = 0x123456789abcdefull, g_seed[1] = 42;
    g_seed_fail = true;
    std::thread([&] {
      const u64 c = pattern(10, 3000, r);
      s.where = 0;
      one("no entropy source", 3000, c, 0, false);
    }).join();
    g_seed_fail = false;
#endif
  }
  void zeros() {  // +0 and -0 are equivalent keys, either may replace the other
    if constexpr (Key<T>::kFloat && !SELECT) {
      for (size_t n : {(size_t)3, (size_t)17, base, base + 70}) for (int q = 0; q < 4; q++) {
        const u64 c = 3;
        (void)c;
        T* p = (T*)s.g.end() - n;
        const u64 zero = Key<T>::top() / 2;
        size_t neg = 0, pos = 0;
        for (size_t i = 0; i < n; i++) {
          const u64 v = q < 2 ? zero : i % 3 == 0 ? zero - 1 : i % 3 == 1 ? zero + 1 : zero;
          p[i] = Key<T>::make(v, 0);
          if (v == zero && (i + q) & 1) ((u8*)(p + i))[sizeof(T) - 1] |= 0x80;
          neg += v < zero, pos += v > zero;
        }
        ex::at("%s zeros n %zu case %d", tn, n, q);
        ex::add();
        if (s.desc) VQ::VQSort(p, n, hwy::SortDescending());
        else VQ::VQSort(p, n, hwy::SortAscending());
        for (size_t i = 0; i < n; i++) {
          const size_t j = s.desc ? n - 1 - i : i;
          T z = Key<T>::make(zero, 0);
          const bool isneg = Sorter<T>::lt(p[j], z), ispos = Sorter<T>::lt(z, p[j]);
          if (isneg != (i < neg) || ispos != (i >= n - pos)) { EX_FAIL("position %zu: wrong key", j); break; }
        }
      }
    }
  }
};
template <class T> void type(const char* tn) {
  static Run<T> x;
  x.tn = tn;
  g_seed[0] = 0x123456789abcdefull, g_seed[1] = 42;
  // base case sizes: at most 16 rows of 16 keys, or a vector's
  const size_t per = HWY_TARGET == HWY_SCALAR ? 1 : HWY_MAX_BYTES / sizeof(T);
  x.base = per >= 4 ? 16 * (per > 16 ? 16 : per) : 8 * per;
  if (x.base < 16) x.base = 16;
  typedef void (Run<T>::*F)();
  const struct { const char* n; F f; } gs[] = {{"tiny", &Run<T>::tiny}, {"network", &Run<T>::network}, {"lengths", &Run<T>::lengths}, {"outliers", &Run<T>::outliers}, {"large", &Run<T>::large}, {"seeds", &Run<T>::seeds}, {"zeros", &Run<T>::zeros}};
  for (int desc = 0; desc < 2; desc++) for (auto& g : gs) {
    if (SELECT && (g.f == &Run<T>::network || g.f == &Run<T>::zeros)) continue;
    if (!Key<T>::kFloat && g.f == &Run<T>::zeros) continue;
    char nm[100];
    snprintf(nm, sizeof nm, "%s %s %s", tn, desc ? "descending" : "ascending", g.n);
    if (!ex::enter(nm)) continue;
    x.s.desc = desc;
    alarm(ex::thorough() ? 600 : 120);
#ifdef DEEP
    if (!(g.f == &Run<T>::lengths || g.f == &Run<T>::outliers || g.f == &Run<T>::large)) { ex::group_end(); continue; }
    for (g_levels = 0; g_levels < 4; g_levels++)
#endif
    for (int split = 0; split < (sizeof(T) == 16 && !Key<T>::kKV ? 4 : 1); split++) {
      g_split = split;
      if (split && (g.f == &Run<T>::network || g.f == &Run<T>::seeds) && !ex::thorough()) continue;
      (x.*g.f)();
    }
    ex::sample("%zu bytes per key, network of up to %zu keys", sizeof(T), x.base);
    ex::group_end();
  }
}
void all() {
#if PART == 0
  type<u16>("u16");
#elif PART == 1
  type<i16>("i16");
#elif PART == 2
  type<u32>("u32");
#elif PART == 3
  type<i32>("i32");
#elif PART == 4
  type<u64>("u64");
#elif PART == 5
  type<i64>("i64");
#elif PART == 6
  type<float>("f32");
#elif PART == 7 && HWY_HAVE_FLOAT64
  type<double>("f64");
#elif PART == 8
  type<hwy::K32V32>("K32V32");
#elif PART == 9 && HWY_TARGET != HWY_SCALAR
  type<hwy::uint128_t>("u128");
#elif PART == 10 && HWY_TARGET != HWY_SCALAR
  type<hwy::K64V64>("K64V64");
#elif PART == 11 && HWY_HAVE_FLOAT16
  type<hwy::float16_t>("f16");
#endif
}
}  // namespace
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
