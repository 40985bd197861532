// C28: streaming statistics, histograms, robust statistics.
#include <math.h>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>
#include "ex.h"
#include <hwy/robust_statistics.h>
#include <hwy/stats.h>
using namespace hwy;
typedef long double L;
namespace {
struct Batch { int64_t n; float mn, mx; L sumlog, mean, m2, m3, m4, s1, s2, s3, s4, big; };
// the statistics of x[0..n), each taken `mult` times
Batch batch(const float* x, size_t n, int64_t mult = 1) {
  Batch b{};
  b.n = (int64_t)n * mult;
  b.mn = std::numeric_limits<float>::max();
  b.mx = -b.mn;
  L s = 0;
  for (size_t i = 0; i < n; i++) { b.mn = std::min(b.mn, x[i]); b.mx = std::max(b.mx, x[i]); s += x[i]; b.sumlog += logl((L)x[i]) * mult; b.big = std::max(b.big, fabsl((L)x[i])); }
  b.mean = n ? s / n : 0;
  for (size_t i = 0; i < n; i++) {
    const L d = x[i] - b.mean;
    b.m2 += d * d * mult, b.m3 += d * d * d * mult, b.m4 += d * d * d * d * mult;
    b.s3 += fabsl(d * d * d) * mult;
  }
  return b;
}
bool near(L a, L b, L tol) { return a == b || fabsl(a - b) <= tol || (isnan(a) && isnan(b)); }
void same(const Stats& s, const Batch& b, const char* how) {
  const L n = b.n, E = 1e-10L;
  if (s.Count() != b.n) { EX_FAIL("%s: Count is %lld, expected %lld", how, (long long)s.Count(), (long long)b.n); return; }
  if (s.Min() != b.mn || s.Max() != b.mx) EX_FAIL("%s: extrema are %g, %g, expected %g, %g", how, s.Min(), s.Max(), b.mn, b.mx);
  if (b.n == 0) {
    if (s.Mean() != 0 || s.Variance() != 0 || s.SampleVariance() != 0 || s.StandardDeviation() != 0 || s.SampleSkewness() != 0 || s.Skewness() != 0 || s.SampleKurtosis() != 0 || s.Kurtosis() != 0 || s.GeometricMean() != 0) EX_FAIL("%s: statistics of nothing", how);
    return;
  }
  auto ck = [&](const char* nm, L g, L w, L tol) { if (!near(g, w, tol)) EX_FAIL("%s: %s is %.12Lg, expected %.12Lg", how, nm, g, w); };
  const L big = b.big, scale = big * 1e-13L;
  const L sd = sqrtl(b.m2 / n);
  ck("Mean", s.Mean(), b.mean, scale);
  ck("Mu1", s.Mu1(), b.mean, scale);
  const L t2 = E * b.m2 / n + scale * scale + scale * sd, t3 = E * b.s3 / n + scale * sd * sd * 10 + scale * scale * big, t4 = E * b.m4 / n + scale * sd * sd * sd * 30 + scale * scale * scale * big;
  ck("Mu2", s.Mu2(), b.m2 / n, t2);
  ck("Mu3", s.Mu3(), b.m3 / n, t3);
  ck("Mu4", s.Mu4(), b.m4 / n, t4);
  ck("SampleVariance", s.SampleVariance(), b.m2 / n, t2);
  const L var = b.n == 1 ? 0 : b.m2 / (n - 1);
  ck("Variance", s.Variance(), var, t2 * 3);
  ck("StandardDeviation", s.StandardDeviation(), sqrtl(var), 3 * sqrtl(t2) + E * sd);
  const bool tiny = b.m2 < 0.9e-7L, edge = b.m2 < 1.1e-7L;
  if (!edge && b.m2 > 1e6L * t2 * n) {
    const L sk = b.m3 * sqrtl(n) / powl(b.m2, 1.5L), ku = b.m4 * n / (b.m2 * b.m2), r = (n - 1) / n;
    const L ts = 1e-9L * (1 + fabsl(sk)) + 20 * scale / sd, tk = 1e-9L * ku + 60 * scale / sd * (1 + ku);
    ck("SampleSkewness", s.SampleSkewness(), sk, ts);
    ck("Skewness", s.Skewness(), sk * powl(r, 1.5L), ts);
    ck("SampleKurtosis", s.SampleKurtosis(), ku, tk);
    ck("Kurtosis", s.Kurtosis(), ku * r * r, tk);
  } else if (tiny && b.m2 == 0 && (s.SampleSkewness() != 0 || s.SampleKurtosis() != 0) && b.n < 100 && big < 1e5) EX_FAIL("%s: skewness or kurtosis of equal samples", how);
  if (b.mn >= 0) {
    const L gm = b.mn == 0 ? 0 : expl(b.sumlog / n);
    ck("GeometricMean", s.GeometricMean(), gm, 1e-10L * gm);
  }
}
const float A[][5] = {{0.5f, 1, 2, 3, 100}, {1e6f, 1e6f + 1, 1e6f + 3, 999999, 1e6f}, {0, 1, 7, 0.125f, 1e-6f}, {-1, 0, 1, -100, 5}, {1e15f, 2e15f, 1e-15f, 3e15f, 1}};
void streams() {
  char nm[40];
  for (int al = 0; al < 5; al++) {
    snprintf(nm, sizeof nm, "Stats alphabet %d", al);
    if (!ex::enter(nm)) continue;
    const int ML = ex::thorough() ? 8 : 6;
    for (int len = 0; len <= ML; len++) {
      uint64_t tot = 1;
      for (int k = 0; k < len; k++) tot *= 5;
      for (uint64_t t = 0; t < tot; t++) {
        float x[10];
        uint64_t u = t;
        for (int k = 0; k < len; k++) { x[k] = A[al][u % 5]; u /= 5; }
        ex::at("length %d sequence %llu", len, (unsigned long long)t);
        const Batch b = batch(x, len);
        Stats s;
        for (int k = 0; k < len; k++) s.Notify(x[k]);
        same(s, b, "Notify");
        if (t % 61 == 0) {
          const std::string str = s.ToString();
          char c[40];
          snprintf(c, sizeof c, "Count=%9d ", len);
          if (len == 0 ? str != "(none)" : str.find(c) != 0) EX_FAIL("ToString is %s", str.c_str());
          Stats q;
          q.Notify(-7);
          q.Notify(70);
          q.Reset();
          for (int k = 0; k < len; k++) q.Notify(x[k]);
          if (memcmp((void*)&q, (void*)&s, sizeof q)) EX_FAIL("Reset leaves something behind");
        }
        // every partition into up to three consecutive parts, merged in every order
        for (int i = 0; i <= len; i++) for (int j = i; j <= len; j++) {
          Stats p[3];
          for (int k = 0; k < len; k++) p[k < i ? 0 : k < j ? 1 : 2].Notify(x[k]);
          Stats l = p[0], r = p[1], m = p[2];
          l.Assimilate(p[1]);
          l.Assimilate(p[2]);
          same(l, b, "(a+b)+c");
          r.Assimilate(p[2]);
          r.Assimilate(p[0]);
          same(r, b, "(b+c)+a");
          Stats z = p[0];
          m.Assimilate(p[1]);
          z.Assimilate(m);
          same(z, b, "a+(c+b)");
          ex::add(3, 1);
        }
        ex::add(1, 1);
        if (ex::many()) return;
      }
    }
    ex::group_end();
  }
  // merges of equal parts: counts up to 2^40
  if (ex::enter("Stats doubling")) {
    for (int al = 0; al < 4; al++) for (int len = 1; len <= 4; len++) for (int first = 0; first < 5; first++) {
      float x[4];
      Stats s, one;
      for (int k = 0; k < len; k++) { x[k] = A[al][(first + k * 2) % 5]; s.Notify(x[k]); }
      one = s;
      for (int d = 1; d <= 40; d++) {
        const Stats c = s;
        s.Assimilate(c);
        ex::at("alphabet %d, %d samples from %d, doubled %d times", al, len, first, d);
        same(s, batch(x, len, (int64_t)1 << d), "doubling");
        Stats t = s;
        t.Assimilate(one);
        same(t, batch(x, len, ((int64_t)1 << d) + 1), "doubling and one more");
        Stats w = one;
        w.Assimilate(s);
        same(w, batch(x, len, ((int64_t)1 << d) + 1), "one and doubling");
        ex::add(3, 1);
        if (ex::many()) return;
      }
    }
    ex::group_end();
  }
  if (ex::enter("Stats::ToString")) {
    for (int e = 0; e < 32; e++) for (float v : {0.0f, 1.0f, -1.0f, 3.4e38f, -3.4e38f, 1e-38f}) for (float w : {0.0f, 5.0f, 3.4e38f}) {
      ex::at("exclude %d samples %g, %g", e, v, w);
      Stats s;
      s.Notify(v), s.Notify(w);
      const std::string t = s.ToString(e);
      const char* key[] = {"Count=", "Mean=", "Min=", "Skew=", "GeoMean="};
      for (int k = 0; k < 5; k++) if (e != 31 && (t.find(key[k]) == 0 || t.find(std::string(" ") + key[k]) != std::string::npos) != !(e >> k & 1)) EX_FAIL("%s: %s", key[k], t.c_str());
      ex::add(1, 1);
    }
    ex::group_end();
  }
}
// ---------------------------------------------------------------- histograms
struct Ab {};
template <class B> std::string printed(const B& b) {
  char* p = nullptr;
  size_t n = 0;
  FILE* const old = stderr;
  FILE* m = open_memstream(&p, &n);
  stderr = m;
  b.Print("cap");
  stderr = old;
  fclose(m);
  std::string s(p, n);
  free(p);
  return s;
}
template <size_t N> std::string wantbins(const size_t* c) {
  char t[60];
  snprintf(t, sizeof t, "\ncap [%zu]\n", N);
  std::string s = t;
  size_t last = 0;
  for (size_t i = 0; i < N; i++) if (c[i]) last = i;
  for (size_t i = 0; i <= last; i++) { snprintf(t, sizeof t, "  %zu\n", c[i]); s += t; }
  return s;
}
template <size_t N, class T> void bins(const char* tn) {
  char nm[40];
  snprintf(nm, sizeof nm, "Bins<%zu> %s", N, tn);
  if (!ex::enter(nm)) return;
  const int ML = N == 1 ? 3 : ex::thorough() ? 7 : 5;
  for (int len = 0; len <= ML; len++) {
    uint64_t tot = 1;
    for (int k = 0; k < len; k++) tot *= N;
    for (uint64_t t = 0; t < tot; t++) {
      ex::at("length %d sequence %llu", len, (unsigned long long)t);
      size_t c[N] = {};
      T v[10];
      uint64_t u = t;
      for (int k = 0; k < len; k++) { v[k] = (T)(u % N); c[u % N]++; u /= N; }
      for (int cut = 0; cut <= len; cut++) {
        Bins<N> a, b;
        for (int k = 0; k < len; k++) (k < cut ? a : b).Notify(v[k]);
        a.Assimilate(b);
        std::string g = printed(a), w = wantbins<N>(c);
        if (g != w) { EX_FAIL("printed %s, expected %s", g.c_str(), w.c_str()); break; }
        if (cut == len) {
          a.Reset();
          size_t z[N] = {};
          if (printed(a) != wantbins<N>(z)) EX_FAIL("Reset leaves counts");
        }
        ex::add(1, 1);
      }
      if (ex::many()) return;
    }
  }
  hwy::SetAbortFunc([](const char*, int, const char*) { throw Ab(); });
  for (int64_t bad : {(int64_t)N, (int64_t)N + 1, (int64_t)100, (int64_t)-1, (int64_t)-100}) {
    if ((int64_t)(T)bad != bad || (bad < 0 && !std::is_signed<T>::value)) continue;
    ex::at("Notify(%lld)", (long long)bad);
    Bins<N> a;
    bool ab = false;
    try { a.Notify((T)bad); } catch (Ab&) { ab = true; }
    if (!ab) EX_FAIL("an out-of-range bin is accepted");
    ex::add(1, 1);
  }
  hwy::SetAbortFunc(nullptr);
  ex::group_end();
}
// ---------------------------------------------------------------- robust statistics
typedef unsigned __int128 U;
typedef __int128 I;
template <class T> T up(T a, T b) { return (T)(((U)a + (U)b + 1) / 2); }
template <class T> T median_(std::vector<T> v) { std::sort(v.begin(), v.end()); const size_t h = v.size() / 2; return v.size() % 2 ? v[h] : up(v[h - 1], v[h]); }
template <class T> T mode_(const std::vector<T>& s) {  // half-sample mode of a sorted sample
  size_t b = 0, h = s.size() / 2;
  while (h > 1) {
    size_t best = b;
    for (size_t i = b; i < b + h; i++) if ((U)s[i + h] - (U)s[i] < (U)s[best + h] - (U)s[best]) best = i;
    b = best;
    h /= 2;
  }
  return h == 0 ? s[b] : up(s[b], s[b + 1]);
}
template <class T> void robust(const char* nm, std::vector<T> al, int ML, bool order_only = false) {
  if (!ex::enter(nm)) return;
  const size_t K = al.size();
  for (int len = 0; len <= ML; len++) {
    uint64_t tot = 1;
    for (int k = 0; k < len; k++) tot *= K;
    for (uint64_t t = 0; t < tot; t++) {
      std::vector<T> v(len), w;
      uint64_t u = t;
      for (int k = 0; k < len; k++) { v[k] = al[u % K]; u /= K; }
      ex::at("length %d sequence %llu", len, (unsigned long long)t);
      std::vector<T> s = v;
      std::sort(s.begin(), s.end());
      w = v;
      robust_statistics::CountingSort(w.data(), w.size());
      if (w != s) EX_FAIL("CountingSort");
      ex::add(1, 1);
      if (order_only || len == 0) { if (ex::many()) return; continue; }
      w = v;
      T g = robust_statistics::Median(w.data(), w.size());
      const T med = median_(v);
      if (g != med) EX_FAIL("Median is %llu, expected %llu", (unsigned long long)g, (unsigned long long)med);
      if (w != s) EX_FAIL("Median does not sort");
      std::vector<T> dev;
      for (T x : v) dev.push_back(x > med ? x - med : med - x);
      g = robust_statistics::MedianAbsoluteDeviation(v.data(), v.size(), med);
      if (g != median_(dev)) EX_FAIL("MedianAbsoluteDeviation is %llu, expected %llu", (unsigned long long)g, (unsigned long long)median_(dev));
      g = robust_statistics::ModeOfSorted(s.data(), s.size());
      if (g != mode_(s)) EX_FAIL("ModeOfSorted is %llu, expected %llu", (unsigned long long)g, (unsigned long long)mode_(s));
      w = v;
      g = robust_statistics::Mode(w.data(), w.size());
      if (g != mode_(s) || w != s) EX_FAIL("Mode is %llu, expected %llu", (unsigned long long)g, (unsigned long long)mode_(s));
      ex::add(4, 1);
      if (ex::many()) return;
    }
  }
  ex::group_end();
}
}  // namespace
static void all() {
  streams();
  bins<1, int>("int"); bins<2, int>("int"); bins<3, uint8_t>("uint8_t"); bins<4, int64_t>("int64_t"); bins<4, size_t>("size_t"); bins<5, int32_t>("int32_t"); bins<3, int8_t>("int8_t"); bins<3, double>("double");
  const int d = ex::thorough() ? 2 : 0;
  robust<uint8_t>("u8", {0, 1, 7, 255}, 7 + d);
  robust<uint16_t>("u16", {0, 1, 300, 65535}, 7 + d);
  robust<uint32_t>("u32", {0, 5, 6, 1000000}, 7 + d);
  robust<uint32_t>("u32 large", {0, 0x7fffffff, 0x80000001, 0xffffffff}, 6 + d);
  robust<uint64_t>("u64", {0, 1000, 1001, 1ull << 40}, 7 + d);
  robust<uint64_t>("u64 large", {1, ~0ull >> 1, (1ull << 63) + 2, ~0ull}, 6 + d);
  robust<uint32_t>("u32 five", {3, 4, 9, 20, 21}, 6 + d);
  robust<uint64_t>("u64 two", {10, 13}, 13 + d);
  robust<int32_t>("i32 order", {INT32_MIN, -1, 0, INT32_MAX}, 7, true);
  robust<int64_t>("i64 order", {INT64_MIN, -1, 0, INT64_MAX}, 7, true);
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
