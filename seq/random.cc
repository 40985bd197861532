// C26: vector random generators against the published xoshiro256++: every sequence of
// draws up to a depth. The jumps are derived by squaring the transition matrix.
#include <vector>
#include <stdlib.h>
#include "simd.h"
#include <hwy/contrib/random/random-inl.h>
extern "C" const char* __asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_abort=0:handle_segv=0:allocator_may_return_null=1"; }
// Exact-size allocations, so that the sanitizer sees the end of each.
namespace hwy {
void* AllocateAlignedBytes(size_t n, AllocPtr, void*) { void* p = nullptr; return posix_memalign(&p, 128, n ? n : 1) ? nullptr : p; }
void FreeAlignedBytes(const void* p, FreePtr, void*) { free((void*)p); }
void AlignedDeleter::DeleteAlignedArray(void* p, FreePtr, void*, ArrayDeleter) { free(p); }
}  // namespace hwy
HWY_BEFORE_NAMESPACE();
namespace {
typedef hn::ScalableTag<u64> D64;
struct S4 { u64 s[4]; bool operator==(const S4& o) const { return !memcmp(s, o.s, 32); } };
u64 rotl(u64 x, int k) { return x << k | x >> (64 - k); }
u64 ref_next(S4& x) {
  u64* s = x.s;
  const u64 r = rotl(s[0] + s[3], 23) + s[0], t = s[1] << 17;
  s[2] ^= s[0], s[3] ^= s[1], s[1] ^= s[2], s[0] ^= s[3], s[2] ^= t, s[3] = rotl(s[3], 45);
  return r;
}
S4 seeded(u64 seed) {
  S4 x;
  for (u64& e : x.s) {
    u64 z = seed += 0x9e3779b97f4a7c15ull;
    z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull, z = (z ^ z >> 27) * 0x94d049bb133111ebull;
    e = z ^ z >> 31;
  }
  return x;
}
// Linear maps over GF(2)^256: c[i] is the image of bit i.
struct Map { S4 c[256]; };
S4 apply(const Map& m, const S4& x) {
  S4 r = {};
  for (int i = 0; i < 256; i++) if (x.s[i >> 6] >> (i & 63) & 1) for (int k = 0; k < 4; k++) r.s[k] ^= m.c[i].s[k];
  return r;
}
Map J, LJ;  // 2^128 and 2^192 steps
void setup() {
  static bool done;
  if (done) return;
  done = true;
  Map m, q;
  for (int i = 0; i < 256; i++) { S4 b = {}; b.s[i >> 6] = 1ull << (i & 63); ref_next(b); m.c[i] = b; }
  for (int n = 1; n <= 192; n++) {
    for (int i = 0; i < 256; i++) q.c[i] = apply(m, m.c[i]);
    m = q;
    if (n == 128) J = m;
  }
  LJ = m;
}
constexpr u64 kSeeds[] = {0, 1, ~0ull, 0x9e3779b97f4a7c15ull, 0x8000000000000000ull, 0x61c8864680b583ebull, 123456789, 0xFFFFFFFF};
struct Ref {
  std::vector<S4> st;
  Ref(u64 seed, u64 thread) {
    S4 x = seeded(seed);
    for (u64 i = 0; i < thread; i++) x = apply(LJ, x);
    for (size_t i = 0; i < hn::Lanes(D64()); i++) st.push_back(x), x = apply(J, x);
  }
  void vec(u64* o) { for (size_t i = 0; i < st.size(); i++) o[i] = ref_next(st[i]); }
  void draw(u64* o, size_t n) {
    u64 t[64];
    for (size_t i = 0; i < n; i += st.size()) { vec(t); memcpy(o + i, t, 8 * std::min(st.size(), n - i)); }
  }
};
double uni(u64 x) { return (double)(x >> 11) / 9007199254740992.0; }
void scalar_class() {
  if (!ex::enter("Xoshiro")) return;
  typedef hn::internal::Xoshiro G;
  for (u64 seed : kSeeds) for (u64 id = 0; id < 5; id++) {
    S4 x = seeded(seed);
    for (u64 i = 0; i < id; i++) x = apply(J, x);
    // every sequence of 5 operations
    for (int seq = 0; seq < 1024; seq++) {
      G g = id ? G(seed, id) : G(seed);
      S4 r = x;
      ex::at("seed %llx id %llu sequence %x", (unsigned long long)seed, (unsigned long long)id, seq);
      ex::add();
      for (int k = 0; k < 5; k++) {
        switch (seq >> (2 * k) & 3) {
          case 0: { const u64 a = g(), b = ref_next(r); EX_CHECK(a == b, "draw %d: %llx, should be %llx", k, (unsigned long long)a, (unsigned long long)b); break; }
          case 1: g.Jump(), r = apply(J, r); break;
          case 2: g.LongJump(), r = apply(LJ, r); break;
          default:
#if HWY_HAVE_FLOAT64
          { const double a = g.Uniform(), b = uni(ref_next(r)); EX_CHECK(a == b, "uniform draw %d: %.17g, should be %.17g", k, a, b); }
#else
            g.SetState(g.GetState());
#endif
        }
        const auto s = g.GetState();
        for (int i = 0; i < 4; i++) EX_CHECK(s[i] == r.s[i], "state %d after step %d differs", i, k);
      }
      if (ex::many()) break;
    }
    if (ex::many()) break;
  }
  static_assert(G::StateSize() == 4, "");
  // set states: each single bit
  for (int i = 0; i < 256; i++) {
    G g(0);
    S4 b = {};
    b.s[i >> 6] = 1ull << (i & 63);
    g.SetState({b.s[0], b.s[1], b.s[2], b.s[3]});
    S4 j = apply(J, b), l = apply(LJ, b), n = b;
    ex::at("state bit %d", i);
    ex::add(3);
    G gj = g, gl = g;
    gj.Jump(), gl.LongJump();
    EX_CHECK(g() == ref_next(n), "draw differs");
    for (int k = 0; k < 4; k++) EX_CHECK(g.GetState()[k] == n.s[k] && gj.GetState()[k] == j.s[k] && gl.GetState()[k] == l.s[k], "next state or jump differs");
  }
  ex::sample("8 seeds, 5 ids, all sequences of 5 operations; all single-bit states");
  ex::group_end();
}
struct Run {
  hn::VectorXoshiro g;
  Ref r;
  bool ok = true;
  Run(u64 seed, u64 thread) : g(seed, thread), r(seed, thread) {}
  void cmp(const u64* a, const u64* b, size_t n, const char* what) {
    for (size_t i = 0; i < n && ok; i++) if (a[i] != b[i]) ok = false, EX_FAIL("%s: value %zu of %zu is %llx, should be %llx", what, i, n, (unsigned long long)a[i], (unsigned long long)b[i]);
  }
  void cmpf(const double* a, const u64* b, size_t n, const char* what) {
    for (size_t i = 0; i < n && ok; i++) if (a[i] != uni(b[i]) || !(a[i] >= 0 && a[i] < 1)) ok = false, EX_FAIL("%s: value %zu of %zu is %.17g, should be %.17g", what, i, n, a[i], uni(b[i]));
  }
  void single() {
    HWY_ALIGN u64 o[64], e[64];
    Store(g(), D64(), o);
    r.vec(e);
    cmp(o, e, hn::Lanes(D64()), "vector");
  }
  void many(size_t n) {
    const auto v = g(n);
    std::vector<u64> e(n + 1);
    r.draw(e.data(), n);
    if (v.size() != n) ok = false, EX_FAIL("%zu values, should be %zu", v.size(), n);
    cmp(v.data(), e.data(), n, "counted");
  }
  template <u64 N> void fixed() {
    const std::array<u64, N> v = g.template operator()<N>();
    u64 e[N];
    r.draw(e, N);
    cmp(v.data(), e, N, "fixed");
  }
#if HWY_HAVE_FLOAT64
  void usingle() {
    HWY_ALIGN double o[64];
    u64 e[64];
    Store(g.Uniform(), hn::ScalableTag<double>(), o);
    r.vec(e);
    cmpf(o, e, hn::Lanes(D64()), "uniform vector");
  }
  void umany(size_t n) {
    const auto v = g.Uniform(n);
    std::vector<u64> e(n + 1);
    r.draw(e.data(), n);
    if (v.size() != n) ok = false, EX_FAIL("%zu values, should be %zu", v.size(), n);
    cmpf(v.data(), e.data(), n, "uniform counted");
  }
  template <u64 N> void ufixed() {
    const std::array<double, N> v = g.template Uniform<N>();
    u64 e[N];
    r.draw(e, N);
    cmpf(v.data(), e, N, "uniform fixed");
  }
#else
  void usingle() { single(); }
  void umany(size_t n) { many(n); }
  template <u64 N> void ufixed() { fixed<N>(); }
#endif
  void state() {
    const auto& s = g.GetState();
    if (g.StateSize() != 4 * r.st.size()) ok = false, EX_FAIL("state size %llu", (unsigned long long)g.StateSize());
    for (size_t k = 0; k < 4; k++) for (size_t i = 0; i < r.st.size(); i++) if (ok && s[{k}][i] != r.st[i].s[k]) ok = false, EX_FAIL("state word %zu of lane %zu differs", k, i);
  }
  void op(int o) {
    const size_t L = hn::Lanes(D64());
    const size_t n[] = {0, 1, 2, L - 1, L, L + 1, 2 * L, 3 * L + 1, 37};
    if (o < 9) return many(n[o]);
    if (o < 18) return umany(n[o - 9]);
    switch (o) {
      case 18: return single();
      case 19: return usingle();
      case 20: return fixed<1>();
      case 21: return fixed<2>();
      case 22: return fixed<3>();
      case 23: return fixed<4>();
      case 24: return fixed<7>();
      case 25: return fixed<8>();
      case 26: return fixed<17>();
      case 27: return fixed<64>();
      case 28: return ufixed<1>();
      case 29: return ufixed<2>();
      case 30: return ufixed<3>();
      case 31: return ufixed<4>();
      case 32: return ufixed<7>();
      case 33: return ufixed<8>();
      case 34: return ufixed<17>();
      default: return ufixed<64>();
    }
  }
};
void histories() {
  if (!ex::enter("VectorXoshiro")) return;
  const int kOps = 36;
  int depth = 0;
  for (u64 seed : kSeeds) for (u64 thread : {0, 1, 2, 5}) {
    depth = ex::thorough() ? (seed == 1 && thread == 1 ? 4 : 3) : (seed == 1 && thread < 2 ? 3 : 2);
    int total = 1;
    for (int k = 0; k < depth; k++) total *= kOps;
    for (int q = 0; q < total; q++) {
      ex::at("seed %llx thread %llu sequence %d", (unsigned long long)seed, (unsigned long long)thread, q);
      ex::add();
      static u64 ls, lt;
      static Run* base;
      if (!base || ls != seed || lt != thread) delete base, base = new Run(seed, thread), ls = seed, lt = thread, base->state();
      Run r(seed, thread);
      int x = q;
      for (int k = 0; k < depth && r.ok; k++, x /= kOps) r.op(x % kOps), r.state();
      if (ex::many()) return ex::group_end();
    }
  }
  // long runs
  for (u64 seed : kSeeds) for (u64 thread : {0, 3}) {
    Run r(seed, thread);
    ex::at("seed %llx thread %llu 4096 draws", (unsigned long long)seed, (unsigned long long)thread);
    for (int k = 0; k < 4096 && r.ok; k++) ex::add(), r.op(k % kOps);
    r.state();
  }
  ex::sample("8 seeds, 4 threads, all sequences of 2 to %d draws by %d methods", ex::thorough() ? 4 : 3, kOps);
  ex::group_end();
}
template <u64 kSize> void cached() {
  char nm[40];
  snprintf(nm, sizeof nm, "CachedXoshiro<%llu>", (unsigned long long)kSize);
  if (!ex::enter(nm)) return;
  for (u64 seed : kSeeds) for (u64 thread : {0, 1, 4}) {
    typedef hn::CachedXoshiro<kSize> C;
    C* c = thread ? new C(seed, thread) : new C(seed);
    Ref r(seed, thread);
    u64 e[kSize];
    static_assert(C::min() == 0 && C::max() == ~0ull, "");
    for (u64 i = 0; i < 3 * kSize + 7 && !ex::many(); i++) {
      if (i % kSize == 0) r.draw(e, kSize);
      ex::at("seed %llx thread %llu draw %llu", (unsigned long long)seed, (unsigned long long)thread, (unsigned long long)i);
      ex::add();
      const u64 v = (*c)();
      EX_CHECK(v == e[i % kSize], "%llx, should be %llx", (unsigned long long)v, (unsigned long long)e[i % kSize]);
    }
    delete c;
  }
  ex::sample("8 seeds, 3 threads, 3 refills");
  ex::group_end();
}
void all() {
  setup();
  scalar_class();
  histories();
  cached<1>();
  cached<2>();
  cached<4>();
  cached<8>();
  cached<16>();
  cached<64>();
  cached<1024>();
}
}  // namespace
HWY_AFTER_NAMESPACE();
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
