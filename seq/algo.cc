// C22: range algorithms against scalar loops, between inaccessible pages.
#include "simd.h"
#include <hwy/contrib/algo/copy-inl.h>
#include <hwy/contrib/algo/find-inl.h>
#include <hwy/contrib/algo/transform-inl.h>
HWY_BEFORE_NAMESPACE();
namespace {
// A page between inaccessible ones; a range is flush with its start, or its end,
// or `off` elements from its end.
template <class T> struct Page {
  ex::Guard g{4096};
  T* p = nullptr;
  size_t n = 0;
  u8 shadow[4096];
  T* place(size_t count, int where) {
    n = count;
    p = where == 0 ? (T*)(g.end()) - count : where == 1 ? (T*)g.begin() : (T*)g.end() - count - (where - 1);
    for (size_t i = 0; i < 4096; i++) g.begin()[i] = (u8)(0xA5 + i * 7);
    return p;
  }
  void snap() { memcpy(shadow, g.begin(), 4096); }
  // whether bytes outside [p, p+k) are as at snap()
  bool intact(size_t k) {
    const size_t a = (u8*)p - g.begin(), b = a + k * sizeof(T);
    return !memcmp(shadow, g.begin(), a) && !memcmp(shadow + b, g.begin() + b, 4096 - b);
  }
};
template <class T> T val(size_t i) {  // distinct enough values, none zero
  if constexpr (std::is_floating_point<T>::value) return (T)(1 + (i * 37) % 1021);
  else return (T)(1 + (i * 37) % (sizeof(T) == 1 ? 61 : 1021));
}
template <class T> bool eq(const T* a, const T* b, size_t n) { return !memcmp(a, b, n * sizeof(T)); }
#define RET_MANY if (ex::many()) return

template <class D> HWY_NOINLINE void one(D d, const char* dn) {
  typedef hn::TFromD<D> T;
  static Page<T> A, B, C, R;
  const size_t N = hn::Lanes(d);
  const size_t top = std::min<size_t>(4096 / sizeof(T) - 4, ex::thorough() ? 6 * N + 5 : 4 * N + 3);
  char nm[100];
  auto grp = [&](const char* n) { snprintf(nm, sizeof nm, "%s %s %s", n, tname<T>(), dn); return ex::enter(nm); };
  std::vector<T> w, in(top + 4);
  const T some[] = {val<T>(5), (T)0, (T)-1, from<T>((Bits<T>)0x7f7e7d7c7b7a7978ull)};
  if (grp("Fill")) {
    for (size_t n = 0; n <= top; n++) for (int at = 0; at < 4; at++) for (T v : some) {
      ex::at("count %zu placement %d", n, at);
      ex::add();
      T* p = A.place(n, at);
      A.snap();
      hn::Fill(d, v, n, p);
      for (size_t i = 0; i < n; i++) if (!same(p[i], v)) { EX_FAIL("element %zu differs", i); break; }
      if (!A.intact(n)) EX_FAIL("wrote outside the range");
      RET_MANY;
    }
    ex::sample("every count, at the start and end of a page");
    ex::group_end();
  }
  if (grp("Copy")) {
    for (size_t n = 0; n <= top; n++) for (int at = 0; at < 4; at++) for (int bt = 0; bt < 4; bt++) {
      ex::at("count %zu placements %d %d", n, at, bt);
      ex::add();
      T *p = A.place(n, at), *q = B.place(n, bt);
      for (size_t i = 0; i < n; i++) p[i] = val<T>(i + at);
      A.snap(), B.snap();
      hn::Copy(d, p, n, q);
      if (!eq(p, q, n)) EX_FAIL("copy differs");
      if (!A.intact(0) || !B.intact(n)) EX_FAIL("wrote outside the destination");
      RET_MANY;
    }
    ex::group_end();
  }
  if (grp("Generate")) {
    typedef hwy::MakeUnsigned<T> TU;
    for (size_t n = 0; n <= top; n++) for (int at = 0; at < 4; at++) {
      ex::at("count %zu placement %d", n, at);
      ex::add();
      T* p = A.place(n, at);
      A.snap();
      hn::Generate(d, p, n, [](auto d1, auto vi) HWY_ATTR { const hn::RebindToUnsigned<decltype(d1)> du; return hn::BitCast(d1, hn::Add(hn::Add(vi, vi), hn::Set(du, (TU)3))); });
      for (size_t i = 0; i < n; i++) if (bits(p[i]) != (Bits<T>)((Bits<T>)i * 2 + 3)) { EX_FAIL("element %zu differs", i); break; }
      if (!A.intact(n)) EX_FAIL("wrote outside the range");
      RET_MANY;
    }
    ex::group_end();
  }
  if (grp("Foreach")) {
    std::vector<T> got(top + 2 * N);
    for (size_t n = 0; n <= top; n++) for (int at = 0; at < 4; at++) for (T no : {(T)0, val<T>(999)}) {
      ex::at("count %zu placement %d", n, at);
      ex::add();
      T* p = A.place(n, at);
      for (size_t i = 0; i < n; i++) p[i] = val<T>(i + at);
      A.snap();
      size_t k = 0, bad = 0;
      T* g = got.data();
      const size_t cap = got.size();
      hn::Foreach(d, p, n, hn::Set(d, no), [&](auto d1, auto v) HWY_ATTR {
        if (k + hn::Lanes(d1) > cap) { bad++; return; }
        hn::StoreU(v, d1, g + k);
        k += hn::Lanes(d1);
      });
      if (k < n || k >= n + N || bad || !eq(g, p, n)) EX_FAIL("did not visit the elements in order, once");
      for (size_t i = n; i < k; i++) if (!same(g[i], no)) { EX_FAIL("element %zu beyond the end is not `no`", i); break; }
      if (!A.intact(0)) EX_FAIL("wrote to the input");
      RET_MANY;
    }
    ex::group_end();
  }
  if (grp("Transform")) {
    for (size_t n = 0; n <= top; n++) for (int at = 0; at < 4; at++) for (int kind = 0; kind < 3; kind++) {
      ex::at("count %zu placement %d inputs %d", n, at, kind);
      ex::add();
      T *p = A.place(n, at), *q = B.place(n, (at + 1) % 4), *r = C.place(n, (at + (int)n) % 4);
      w.resize(n);
      for (size_t i = 0; i < n; i++) {
        p[i] = val<T>(i), q[i] = val<T>(i + 7), r[i] = val<T>(i + 19);
        w[i] = kind == 0 ? (T)(p[i] + p[i]) : kind == 1 ? (T)(p[i] - q[i]) : (T)((T)(p[i] - q[i]) + (T)(r[i] + r[i]));
      }
      A.snap(), B.snap(), C.snap();
      if (kind == 0) hn::Transform(d, p, n, [](auto, auto v) HWY_ATTR { return hn::Add(v, v); });
      if (kind == 1) hn::Transform1(d, p, n, q, [](auto, auto v, auto v1) HWY_ATTR { return hn::Sub(v, v1); });
      if (kind == 2) hn::Transform2(d, p, n, q, r, [](auto, auto v, auto v1, auto v2) HWY_ATTR { return hn::Add(hn::Sub(v, v1), hn::Add(v2, v2)); });
      if (!eq<T>(p, w.data(), n)) EX_FAIL("result differs");
      if (!A.intact(n) || !B.intact(0) || !C.intact(0)) EX_FAIL("wrote outside the range");
      RET_MANY;
    }
    ex::group_end();
  }
  // every element equal to `o` or not: all patterns of short arrays, then families
  auto patterns = [&](size_t n, auto&& f) {
    const size_t full = ex::thorough() ? 14 : 11;
    auto run = [&](auto&& bit) { for (size_t i = 0; i < n; i++) w[i] = (T)bit(i); f(); };
    w.resize(n);
    if (n <= full) { for (size_t m = 0; m < size_t{1} << n; m++) run([&](size_t i) { return m >> i & 1; }); return; }
    for (size_t k = 0; k < n; k++) { run([&](size_t i) { return i == k; }); run([&](size_t i) { return i != k; }); run([&](size_t i) { return i <= k; }); run([&](size_t i) { return i > k; }); }
    for (size_t q = 1; q <= 9; q++) for (size_t k = 0; k < q; k++) run([&](size_t i) { return i % q == k; });
    run([&](size_t) { return 0; });
  };
  if (grp("Replace")) {
    const T olds[] = {val<T>(5), (T)0};
    for (size_t n = 0; n <= top; n++) for (T o : olds) {
      int at = 0;
      patterns(n, [&] {
        at = (at + 1) % 4;
        ex::at("count %zu placement %d", n, at);
        ex::add();
        T* p = A.place(n, at);
        in.resize(n);
        for (size_t i = 0; i < n; i++) { const T x = val<T>(i + 20); in[i] = p[i] = w[i] != 0 ? o : same(x, o) ? val<T>(6) : x; }
        A.snap();
        const T nw = val<T>(900);
        const bool iff = (n + at) % 2;
        if (iff) hn::ReplaceIf(d, p, n, nw, [o](auto d1, auto v) HWY_ATTR { return hn::Eq(v, hn::Set(d1, o)); });
        else hn::Replace(d, p, n, nw, o);
        for (size_t i = 0; i < n; i++) if (!same(p[i], w[i] != 0 ? nw : in[i])) { EX_FAIL("element %zu differs", i); break; }
        if (!A.intact(n)) EX_FAIL("wrote outside the range");
      });
      RET_MANY;
    }
    if constexpr (std::is_floating_point<T>::value) {
      const T nan = (T)__builtin_nan(""), z = (T)0, nz = (T)-0.0;
      for (size_t n = 1; n <= top; n++) for (size_t k = 0; k < n; k++) for (T o : {nan, z, nz}) for (T e : {nan, z, nz}) {
        ex::at("count %zu, element %zu special", n, k);
        ex::add();
        T* p = A.place(n, 0);
        for (size_t i = 0; i < n; i++) p[i] = val<T>(i);
        p[k] = e;
        hn::Replace(d, p, n, (T)77777, o);
        if (!same(p[k], e == o ? (T)77777 : e)) EX_FAIL("equality of special values");
      }
    }
    ex::sample("all patterns of equal elements");
    ex::group_end();
  }
  if (grp("Find")) {
    const T olds[] = {val<T>(5), (T)0};
    for (size_t n = 0; n <= top; n++) for (T o : olds) {
      int at = 0;
      patterns(n, [&] {
        at = (at + 1) % 4;
        ex::at("count %zu placement %d", n, at);
        ex::add();
        T* p = A.place(n, at);
        // the bytes around the range hold the searched value
        for (T* q = (T*)A.g.begin(); q < (T*)A.g.end(); q++) *q = o;
        size_t want = n;
        for (size_t i = n; i--;) { const T x = val<T>(i + 20); p[i] = w[i] != 0 ? o : same(x, o) ? val<T>(6) : x; if (w[i] != 0) want = i; }
        A.snap();
        const size_t got = hn::Find(d, o, p, n);
        if (got != want) EX_FAIL("Find returned %zu, expected %zu", got, want);
        const size_t got2 = hn::FindIf(d, p, n, [o](auto d1, auto v) HWY_ATTR { return hn::Eq(v, hn::Set(d1, o)); });
        if (got2 != want) EX_FAIL("FindIf returned %zu, expected %zu", got2, want);
        if (!A.intact(0)) EX_FAIL("wrote to the input");
      });
      RET_MANY;
    }
    if constexpr (std::is_floating_point<T>::value) {
      const T nan = (T)__builtin_nan(""), z = (T)0, nz = (T)-0.0;
      for (size_t n = 1; n <= top; n++) for (size_t k = 0; k < n; k++) for (T o : {nan, z, nz}) for (T e : {nan, z, nz}) {
        ex::at("count %zu, element %zu special", n, k);
        ex::add();
        T* p = A.place(n, 0);
        for (size_t i = 0; i < n; i++) p[i] = val<T>(i);
        p[k] = e;
        const size_t got = hn::Find(d, o, p, n), want = e == o ? k : n;
        if (got != want) EX_FAIL("Find returned %zu, expected %zu", got, want);
      }
    }
    // a predicate that holds for the padding and the bytes beyond
    for (size_t n = 0; n <= top; n++) for (int at = 0; at < 4; at++) {
      ex::at("count %zu placement %d, predicate true only beyond the end", n, at);
      ex::add();
      T* p = A.place(n, at);
      for (T* q = (T*)A.g.begin(); q < (T*)A.g.end(); q++) *q = (T)0;
      for (size_t i = 0; i < n; i++) p[i] = (T)9;
      const size_t got = hn::FindIf(d, p, n, [](auto d1, auto v) HWY_ATTR { return hn::Lt(v, hn::Set(d1, (T)5)); });
      if (got != n) EX_FAIL("FindIf returned %zu, expected %zu", got, n);
    }
    ex::group_end();
  }
  if constexpr (sizeof(T) > 1) if (grp("CopyIf")) {
    for (size_t n = 0; n <= top; n++) {
      int at = 0;
      patterns(n, [&] {
        at = (at + 1) % 16;
        size_t cnt = 0;
        for (size_t i = 0; i < n; i++) cnt += w[i] != 0;
        ex::at("count %zu placements %d %d, %zu selected", n, at % 4, at / 4, cnt);
        ex::add();
        T *p = A.place(n, at % 4), *q = B.place(cnt, at / 4);  // exactly enough room
        in.clear();
        for (size_t i = 0; i < n; i++) { p[i] = (T)(2 * (T)(i % 500) + (w[i] != 0 ? 1 : 0)); if (w[i] != 0) in.push_back(p[i]); }
        A.snap(), B.snap();
        auto f = [](auto d1, auto v) HWY_ATTR {
          if constexpr (std::is_floating_point<T>::value) { const hn::RebindToSigned<decltype(d1)> di; return hn::MaskFromVec(hn::BitCast(d1, hn::VecFromMask(di, hn::TestBit(hn::ConvertTo(di, v), hn::Set(di, 1))))); }
          else return hn::TestBit(v, hn::Set(d1, (T)1));
        };
        T* e = hn::CopyIf(d, p, n, q, f);
        if (e != q + cnt) EX_FAIL("returned end %td, expected %zu", e - q, cnt);
        if (!eq<T>(q, in.data(), cnt)) EX_FAIL("selected elements differ");
        if (!A.intact(0) || !B.intact(cnt)) EX_FAIL("wrote outside the destination");
      });
      RET_MANY;
    }
    ex::sample("all selections of up to 11 elements, destination with room for exactly the selected ones");
    ex::group_end();
  }
}
template <class T> HWY_NOINLINE void type() {
  one(hn::ScalableTag<T>(), "full");
  if (HWY_MAX_LANES_D(hn::ScalableTag<T>) > 4) one(hn::CappedTag<T, 4>(), "capped4");
  if (HWY_MAX_LANES_D(hn::ScalableTag<T>) > 1) one(hn::CappedTag<T, 1>(), "capped1");
  if (HWY_MAX_LANES_D(hn::ScalableTag<T>) > 2) one(hn::CappedTag<T, 2>(), "capped2");
}
void all() {
#if PART == 0
  type<u8>();
  type<i8>();
#elif PART == 1
  type<u16>();
  type<i16>();
  type<i32>();
#else
  type<u32>();
  type<u64>();
  type<i64>();
  type<f32>();
  type<f64>();
#endif
}
}  // namespace
HWY_AFTER_NAMESPACE();
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
