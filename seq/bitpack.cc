// C23: bit packing round trips between inaccessible pages.
#include "simd.h"
#include <hwy/contrib/bit_pack/bit_pack-inl.h>
HWY_BEFORE_NAMESPACE();
namespace {
template <class T> struct Case {
  const char* name;
  size_t k;                              // bits per value
  size_t N;                              // lanes
  void (*pack)(const T*, T*, T);
  void (*unpack)(const T*, T*, T);
  bool frame;
};
template <class D, class T, template <size_t> class P, size_t K, int kFor> struct Fn {
  static HWY_NOINLINE void pack(const T* raw, T* out, T f) {
    if constexpr (kFor == 0) { (void)f; P<K>().Pack(D(), raw, out); }
    else P<K>().template Pack<D, hn::kFoRBitPacked>(D(), raw, out, f);
  }
  static HWY_NOINLINE void unpack(const T* in, T* raw, T f) {
    if constexpr (kFor == 0) { (void)f; P<K>().Unpack(D(), in, raw); }
    else P<K>().template Unpack<D, hn::kFoRBitPacked>(D(), in, raw, f);
  }
};

// Buffers: one set flush with the end of its pages, one with the start.
template <class T> struct Buf {
  ex::Guard g;
  size_t cap;
  explicit Buf() : g(8192), cap(8192 / sizeof(T)) {}
  T* at(size_t n, int where) { return where ? (T*)g.begin() : (T*)g.end() - n; }
};
template <class T> void run(const Case<T>& c) {
  if (!ex::enter(c.name)) return;
  constexpr size_t B = sizeof(T) * 8;
  const size_t N = c.N, K = c.k, n = B * N, np = K * N;
  const T mask = K == B ? (T)~T(0) : (T)(((T)1 << (K % B)) - 1);
  static Buf<T> Raw, Pk, Out;
  T want[8192 / sizeof(T)], pk[8192 / sizeof(T)];
  T frame = 0;
  int where = 0;
  auto fill = [&](u8* b, size_t bytes, u8 v) { memset(b, v, bytes); };
  // packs want (with frame added), compares; returns packed vectors in pk
  auto trip = [&]() {
    ex::add();
    T *r = Raw.at(n, where), *p = Pk.at(np, where), *o = Out.at(n, where);
    for (size_t i = 0; i < n; i++) r[i] = (T)(want[i] + frame);
    memset(p, 0x5A, np * sizeof(T));
    memset(o, 0xC3, n * sizeof(T));
    c.pack(r, p, frame);
    memcpy(pk, p, np * sizeof(T));
    c.unpack(p, o, frame);
    if (memcmp(r, o, n * sizeof(T))) {
      for (size_t i = 0; i < n; i++) if (r[i] != o[i]) { EX_FAIL("vector %zu lane %zu: packed %llx, unpacked %llx", i / N, i % N, (unsigned long long)r[i], (unsigned long long)o[i]); break; }
    }
  };
  // bytes beyond the packed/raw ranges are not touched, inputs not changed
  auto outside = [&]() {
    for (where = 0; where < 2; where++) {
      const size_t all = 8192;
      static u8 s0[8192], s1[8192], s2[8192];
      for (int round = 0; round < 2; round++) {
        fill(Raw.g.begin(), all, round ? 0x11 : 0xEE);
        fill(Pk.g.begin(), all, round ? 0x22 : 0xDD);
        fill(Out.g.begin(), all, round ? 0x33 : 0xCC);
        T *r = Raw.at(n, where), *p = Pk.at(np, where), *o = Out.at(n, where);
        for (size_t i = 0; i < n; i++) r[i] = (T)((want[i] & mask) + frame);
        memcpy(s0, Raw.g.begin(), all), memcpy(s1, Pk.g.begin(), all), memcpy(s2, Out.g.begin(), all);
        ex::at("%s bytes around the buffers, at the %s of pages", c.name, where ? "start" : "end");
        c.pack(r, p, frame);
        if (memcmp(s0, Raw.g.begin(), all)) EX_FAIL("Pack changed its input");
        size_t a = (u8*)p - Pk.g.begin(), e = a + np * sizeof(T);
        if (memcmp(s1, Pk.g.begin(), a) || memcmp(s1 + e, Pk.g.begin() + e, all - e)) EX_FAIL("Pack wrote outside %zu vectors", K);
        if (round) {  // every packed byte is determined by the values
          static T prev[8192 / sizeof(T)];
          memcpy(prev, p, np * sizeof(T));
          memset(p, 0x77, np * sizeof(T));
          c.pack(r, p, frame);
          if (memcmp(prev, p, np * sizeof(T))) EX_FAIL("packed vectors depend on previous contents");
        }
        memcpy(s1, Pk.g.begin(), all);
        c.unpack(p, o, frame);
        if (memcmp(s1, Pk.g.begin(), all)) EX_FAIL("Unpack changed its input");
        a = (u8*)o - Out.g.begin(), e = a + n * sizeof(T);
        if (memcmp(s2, Out.g.begin(), a) || memcmp(s2 + e, Out.g.begin() + e, all - e)) EX_FAIL("Unpack wrote outside %zu vectors", B);
        if (memcmp(r, o, n * sizeof(T))) EX_FAIL("round trip differs");
        ex::add();
      }
    }
    where = 0;
  };
  auto set = [&](T v) { for (size_t i = 0; i < n; i++) want[i] = v; };
  for (size_t i = 0; i < n; i++) want[i] = (T)((i * 0x9E3779B97F4A7C15ull >> 20) & mask);
  outside();
  std::vector<T> frames;
  if (c.frame) frames = {(T)0, (T)1, (T)~T(0), (T)((T)1 << (B - 1)), (T)(mask), (T)(0x0123456789ABCDEFull)};
  else frames = {(T)0};
  if (c.frame && B == 64 && !ex::thorough()) frames = {(T)~T(0), (T)(0x0123456789ABCDEFull)};
  for (T f : frames) {
    frame = f;
    // every value bit of every lane of every vector, alone and as the only clear one
    for (int bg = 0; bg < 2; bg++) {
      const T base = bg ? mask : (T)0;
      set(base);
      ex::at("%s all %s frame %llx", c.name, bg ? "ones" : "zero", (unsigned long long)f);
      trip();
      T zero[8192 / sizeof(T)];
      memcpy(zero, pk, sizeof zero);
      std::vector<int> seen(np * B, -1);
      for (size_t i = 0; i < n; i++) for (size_t b = 0; b < K; b++) {
        want[i] = (T)(base ^ ((T)1 << b));
        where = (i ^ b) & 1;
        ex::at("%s vector %zu lane %zu bit %zu %s frame %llx", c.name, i / N, i % N, b, bg ? "clear" : "set", (unsigned long long)f);
        trip();
        if (!memcmp(zero, pk, np * sizeof(T))) EX_FAIL("not stored");
        want[i] = base;
        if (ex::many()) return ex::group_end();
      }
      where = 0;
    }
    // all values of each vector's lanes (as many lanes at once as there are), others zero / ones / alternating
    if (K <= 8 || (K <= 16 && (ex::thorough() || f == 0))) {
      const T bgs[] = {0, mask, (T)(mask & (T)0x5555555555555555ull)};
      for (T bg : bgs) for (size_t j = 0; j < B; j++) for (u64 v = 0; v <= mask; v += (K <= 8 ? 1 : N)) {
        set(bg);
        for (size_t l = 0; l < N; l++) want[j * N + l] = (T)((v + l) & mask);
        ex::at("%s vector %zu values from %llx others %llx frame %llx", c.name, j, (unsigned long long)v, (unsigned long long)bg, (unsigned long long)f);
        trip();
        if (ex::many()) return ex::group_end();
      }
    }
    // runs of bits and all alphabet values per vector with each background
    {
      std::vector<T> al;
      for (size_t a = 0; a < K; a++) for (size_t b = a; b < K; b++) al.push_back((T)((((T)2 << b) - 1) ^ (((T)1 << a) - 1)) & mask);
      const size_t step = N * (ex::thorough() || B < 32 ? 1 : B / 8);
      for (int bg = 0; bg < 2; bg++) for (size_t j = 0; j < B; j++) for (size_t v = 0; v < al.size(); v += step) {
        set(bg ? mask : 0);
        for (size_t l = 0; l < N; l++) want[j * N + l] = al[(v + l * (step / N) + j) % al.size()];
        ex::at("%s vector %zu bit runs from %zu bg %d frame %llx", c.name, j, v, bg, (unsigned long long)f);
        trip();
        if (ex::many()) return ex::group_end();
      }
    }
    // pairs of bits of the same lane, of any two vectors; lanes carry different pairs
    if (f == 0 && (B <= 16 || ex::thorough())) {
      size_t lane = 0;
      std::vector<std::pair<size_t, size_t>> undo;
      set(0);
      for (size_t j = 0; j < B; j++) for (size_t b = 0; b < K; b++) for (size_t j2 = j + 1; j2 < B; j2++) for (size_t b2 = 0; b2 < K; b2++) {
        want[j * N + lane] |= (T)((T)1 << b);
        want[j2 * N + lane] |= (T)((T)1 << b2);
        if (++lane == N) {
          lane = 0;
          ex::at("%s pairs up to vector %zu bit %zu, vector %zu bit %zu", c.name, j, b, j2, b2);
          trip();
          memset(want, 0, sizeof want);
          if (ex::many()) return ex::group_end();
        }
      }
      trip();
    }
  }
  ex::sample("%zu values of %zu bits <-> %zu packed", n, K, np);
  ex::group_end();
}
template <class D, class T, template <size_t> class P, size_t K, int kFor> void add(std::vector<Case<T>>& v, const char* dn) {
  char* nm = (char*)malloc(80);
  snprintf(nm, 80, "Pack%zu<%zu> %s%s", sizeof(T) * 8, K, dn, kFor ? " frame of reference" : "");
  typedef Fn<D, T, P, K, kFor> F;
  v.push_back(Case<T>{nm, K, hn::Lanes(D()), F::pack, F::unpack, kFor != 0});
}
template <class D, class T, template <size_t> class P, int kFor, size_t From, size_t... I> void adds(std::vector<Case<T>>& v, const char* dn, std::index_sequence<I...>) {
  (add<D, T, P, From + I, kFor>(v, dn), ...);
}
template <class T, template <size_t> class P, int kFor, size_t From, size_t To, class D> void go(D, const char* dn) {
  std::vector<Case<T>> v;
  adds<D, T, P, kFor, From>(v, dn, std::make_index_sequence<To - From + 1>());
  for (auto& c : v) run(c);
}
#define SMALLER(T, lanes) if constexpr (HWY_MAX_LANES_D(hn::ScalableTag<T>) > lanes)
void all() {
#if PART == 0
#if HWY_TARGET != HWY_SCALAR
  go<u8, hn::Pack8, 0, 1, 8>(hn::ScalableTag<u8>(), "full");
  SMALLER(u8, 16) go<u8, hn::Pack8, 0, 1, 8>(hn::CappedTag<u8, 16>(), "16 lanes");
  go<u8, hn::Pack8, 0, 1, 8>(hn::CappedTag<u8, 8>(), "8 lanes");
  go<u8, hn::Pack8, 0, 1, 8>(hn::CappedTag<u8, 2>(), "2 lanes");
#endif
  go<u16, hn::Pack16, 0, 1, 16>(hn::ScalableTag<u16>(), "full");
  SMALLER(u16, 4) go<u16, hn::Pack16, 0, 1, 16>(hn::CappedTag<u16, 4>(), "4 lanes");
  SMALLER(u16, 1) go<u16, hn::Pack16, 0, 1, 16>(hn::CappedTag<u16, 1>(), "1 lane");
#elif PART == 1
  go<u32, hn::Pack32, 0, 1, 32>(hn::ScalableTag<u32>(), "full");
  SMALLER(u32, 2) go<u32, hn::Pack32, 0, 1, 32>(hn::CappedTag<u32, 2>(), "2 lanes");
  go<u32, hn::Pack32, 1, 1, 32>(hn::ScalableTag<u32>(), "full");
#elif PART == 2
  go<u64, hn::Pack64, 0, 1, 32>(hn::ScalableTag<u64>(), "full");
  go<u64, hn::Pack64, 1, 33, 64>(hn::ScalableTag<u64>(), "full");
#elif PART == 3
  go<u64, hn::Pack64, 1, 1, 32>(hn::ScalableTag<u64>(), "full");
  go<u64, hn::Pack64, 0, 33, 64>(hn::ScalableTag<u64>(), "full");
#endif
}
}  // namespace
HWY_AFTER_NAMESPACE();
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
