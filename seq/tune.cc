// C05: the auto-tuner under every short cost history.
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include "ex.h"
#include "hwy/auto_tune.h"

using hwy::AutoTune;
using hwy::CostDistribution;
using hwy::NextWithSkip;

// ---- cyclic list with removal: all removal orders
static void skip_rec(const NextWithSkip& l, const std::vector<size_t>& alive, size_t num, std::set<std::vector<size_t>>* seen) {
  if (seen && !seen->insert(alive).second) return;
  NextWithSkip m = l;
  for (size_t k = 0; k < alive.size(); k++) {
    const size_t n = m.Next(alive[k]);
    EX_CHECK(n == alive[(k + 1) % alive.size()], "Next(%zu)=%zu with %zu of %zu left", alive[k], n, alive.size(), num);
  }
  ex::add();
  if (ex::many()) return;
  for (size_t k = 0; k < alive.size(); k++) {
    NextWithSkip n = l;
    n.Skip(alive[k]);
    std::vector<size_t> a = alive;
    if (a.size() > 1) a.erase(a.begin() + k);
    else {
      EX_CHECK(n.Next(a[0]) == a[0], "last position was skipped");
      continue;
    }
    skip_rec(n, a, num, seen);
  }
}
GROUP(skip_list) {
  for (size_t num = 1; num <= 10; num++) {
    ex::at("%zu positions", num);
    std::vector<size_t> a;
    for (size_t i = 0; i < num; i++) a.push_back(i);
    std::set<std::vector<size_t>> seen;
    // every removal order up to 6 positions; every subset (by its first order) above
    skip_rec(NextWithSkip(num), a, num, num <= 6 ? nullptr : &seen);
  }
}
GROUP(skip_list_large) {
  for (size_t num : {255u, 256u, 257u, 4095u, 4096u, 8191u, 8192u, 8193u, 16382u, 16383u})
    for (int pat = 0; pat < 6; pat++) {
      ex::at("%zu positions, pattern %d", num, pat);
      NextWithSkip l(num);
      std::vector<char> dead(num);
      size_t left = num;
      for (size_t k = 0; k < num; k++) {
        const size_t i = pat & 1 ? num - 1 - k : k;
        const bool kill = pat < 2 ? i != num / 2 : pat < 4 ? i % 2 : (i % 256) != 255 && i != 3;
        if (!kill) continue;
        l.Skip(i);
        dead[i] = 1;
        left--;
      }
      size_t first = 0;
      while (dead[first]) first++;
      size_t p = first, n = 0;
      do {
        const size_t q = l.Next(p);
        size_t want = (p + 1) % num;
        while (dead[want]) want = (want + 1) % num;
        if (q != want) { EX_FAIL("Next(%zu)=%zu, expected %zu", p, q, want); break; }
        p = q;
        n++;
        ex::add();
      } while (p != first && n <= num);
      EX_CHECK(n == left, "cycle of %zu, expected %zu", n, left);
    }
}

// ---- cost estimates: all sequences over an alphabet
static void estimate_all(const std::vector<double>& alpha, size_t len) {
  std::vector<size_t> idx(len, 0);
  for (;;) {
    CostDistribution d;
    double lo = 1e300, hi = 0;
    for (size_t i = 0; i < len; i++) {
      d.Notify(alpha[idx[i]]);
      lo = std::min(lo, alpha[idx[i]]);
      hi = std::max(hi, alpha[idx[i]]);
    }
    const double e = d.EstimateCost();
    const double eps = hi * 1e-12;
    if (!(e >= lo - eps && e <= hi + eps)) {
      std::string s;
      for (size_t i : idx) s += std::to_string((long)alpha[i]) + " ";
      ex::at("samples %s", s.c_str());
      EX_FAIL("estimate %g outside [%g, %g]", e, lo, hi);
      if (ex::many()) return;
    }
    EX_CHECK(d.EstimateCost() == e, "estimate changes without a new cost");
    ex::add();
    size_t k = 0;
    while (k < len && ++idx[k] == alpha.size()) idx[k++] = 0;
    if (k == len) break;
  }
}
GROUP(estimate_within_samples) {
  for (size_t len = 1; len <= (ex::thorough() ? 10u : 8u); len++) estimate_all({0, 1, 7, 1000}, len);
  for (size_t len = 9; len <= (ex::thorough() ? 20u : 17u); len++) estimate_all({3, 1000000}, len);
  ex::sample("all sequences over {0,1,7,1000} and {3,1000000}");
}
GROUP(estimate_constant) {
  for (double c : {0.0, 1.0, 2.0, 3.0, 100.0, 12345.0, 1e9, 1e15, 1.8446744073709552e19})
    for (int n = 1; n <= 60; n++)
      for (int probe = 0; probe <= n; probe++) {  // estimate also taken midway
        ex::at("%d times %g, estimate after %d", n, c, probe);
        CostDistribution d;
        double mid = c;
        for (int i = 0; i < n; i++) { d.Notify(c); if (i == probe) mid = d.EstimateCost(); }
        const double e = d.EstimateCost();
        EX_CHECK(std::abs(e - c) <= c * 1e-12 && std::abs(mid - c) <= c * 1e-12, "estimate %g", e);
        ex::add();
      }
}
GROUP(estimate_outliers) {
  // 14 samples of which at most 3, at any position, are outliers
  for (int pat = 0; pat < 4; pat++)
    for (unsigned m = 0; m < (1u << 14); m++) {
      if (__builtin_popcount(m) > 3) continue;
      for (int big = 0; big < 2; big++) {
        ex::at("pattern %d outlier mask %x kind %d", pat, m, big);
        CostDistribution d;
        for (int i = 0; i < 14; i++) {
          double v = pat == 0 ? 1000 : pat == 1 ? 1000 + i % 3 : pat == 2 ? 1000 + (i * 5) % 14 : 1000 + i / 7;
          if (m >> i & 1) v = big ? 1e6 : 1;
          d.Notify(v);
        }
        const double e = d.EstimateCost();
        EX_CHECK(e >= 999.9 && e <= 1013.1, "estimate %g", e);
        // later single outliers move the estimate only within the tolerance
        const double lo = d.Lower(), hi = d.Upper();
        CostDistribution d2 = d;
        d2.Notify(1e12);
        EX_CHECK(d2.EstimateCost() <= hi + 1e-6 && d2.EstimateCost() >= lo - 1e-6, "online outlier moves the estimate to %g (upper %g)", d2.EstimateCost(), hi);
        CostDistribution d3 = d;
        d3.Notify(0);
        EX_CHECK(d3.EstimateCost() >= lo - 1e-6 && d3.EstimateCost() <= hi + 1e-6, "online outlier moves the estimate to %g (lower %g)", d3.EstimateCost(), lo);
        ex::add();
      }
    }
}
// A distribution that was constant at first must not freeze there.
GROUP(estimate_recovers) {
  for (int n : {1, 2, 5, 13, 14, 15, 20})
    for (double a : {100.0, 1000.0})
      for (double f : {0.7, 0.9, 1.1, 1.3}) {
        ex::at("%d times %g, then 1000 times %g", n, a, a * f);
        CostDistribution d;
        for (int i = 0; i < n; i++) d.Notify(a);
        d.EstimateCost();
        for (int i = 0; i < 1000; i++) d.Notify(a * f);
        EX_CHECK(std::abs(d.EstimateCost() - a * f) <= std::abs(a - a * f) / 2, "estimate %g", d.EstimateCost());
        ex::add();
      }
}
static int warned;
static void on_warn(const char*, int, const char*) { warned++; }
GROUP(negative_costs_ignored) {
  hwy::SetWarnFunc(on_warn);
  for (int n = 0; n < 40; n++)
    for (int at = 0; at <= n; at++) {
      ex::at("%d costs, negative one at %d", n + 1, at);
      CostDistribution a, b;
      warned = 0;
      for (int i = 0; i <= n; i++) {
        if (i == at) b.Notify(-1.0);
        a.Notify(10.0 + i % 5);
        b.Notify(10.0 + i % 5);
      }
      EX_CHECK(warned == 1 && a.EstimateCost() == b.EstimateCost(), "negative cost had an effect");
      ex::add();
    }
}

// ---- the tuner itself
template <size_t K>
struct Run {
  using T = AutoTune<int, K>;
  // Replays one sequence of cost choices, checking every step.
  // cost(step, config, measurement index of that config)
  template <class F>
  static const int* go(size_t num, F cost, bool known_costs) {
    T t;
    if (t.HasCandidates()) EX_FAIL("has candidates before SetCandidates");
    std::vector<int> cand;
    for (size_t i = 0; i < num; i++) cand.push_back(100 + (int)i);
    t.SetCandidates(cand);
    EX_CHECK(t.HasCandidates(), "no candidates");
    const size_t bound = num * (3 * K / 2 + 1);
    std::vector<size_t> meas(num);
    std::vector<double> mn(num, 1e300), mx(num, 0);
    size_t round_mask_prev = 0;
    std::vector<char> alive(num, 1);
    size_t last = num;  // index proposed in the previous step
    size_t step = 0;
    (void)round_mask_prev;
    while (!t.Best()) {
      if (step >= bound) { EX_FAIL("no decision after %zu measurements", step); return nullptr; }
      const int& c = t.NextConfig();
      if (c < 100 || c >= 100 + (int)num || &c != t.Candidates().begin() + (c - 100)) { EX_FAIL("proposed something that is no candidate"); return nullptr; }
      const size_t i = c - 100;
      EX_CHECK(&t.NextConfig() == &c, "NextConfig changes by itself");
      // Proposals cycle through the candidates; one that was passed over was
      // eliminated and must not come back.
      if (last < num) {
        for (size_t k = (last + 1) % num; k != i; k = (k + 1) % num) {
          if (alive[k]) EX_CHECK(meas[k] >= K, "candidate %zu passed over after %zu measurements", k, meas[k]);
          alive[k] = 0;
          if (k == last) break;
        }
      }
      EX_CHECK(alive[i], "eliminated candidate %zu proposed again", i);
      const uint64_t v = cost(step, i, meas[i]);
      meas[i]++;
      mn[i] = std::min(mn[i], (double)v);
      mx[i] = std::max(mx[i], (double)v);
      t.NotifyCost(v);
      last = i;
      step++;
      ex::add(1, 0);
    }
    const int* best = t.Best();
    if (best < t.Candidates().begin() || best >= t.Candidates().begin() + num) { EX_FAIL("Best() is no candidate"); return nullptr; }
    const size_t b = *best - 100;
    for (size_t i = 0; i < num; i++) {
      EX_CHECK(meas[i] >= K, "decided after %zu measurements of candidate %zu", meas[i], i);
      EX_CHECK(t.Candidates().begin()[i] == 100 + (int)i, "candidates changed");
    }
    auto costs = t.Costs();
    EX_CHECK(costs.size() == num, "Costs() size");
    for (size_t i = 0; i < num; i++) {
      const double e = costs[i].EstimateCost();
      EX_CHECK(e >= mn[i] * (1 - 1e-12) && e <= mx[i] * (1 + 1e-12), "estimate of %zu is %g, samples in [%g, %g]", i, e, mn[i], mx[i]);
      EX_CHECK(costs[b].EstimateCost() <= e, "winner %zu costs %g, candidate %zu costs %g", b, costs[b].EstimateCost(), i, e);
      // Whatever the estimator: a candidate never measured above another's
      // minimum beats it.
      EX_CHECK(!(mx[i] < mn[b] * (1 - 1e-9)), "winner %zu always cost more than candidate %zu", b, i);
    }
    EX_CHECK(t.Best() == best, "Best changes");
    return best;
  }
};
// All cost sequences over the alphabet; odometer over the choices of one run.
template <size_t K>
static void sequences(size_t num, const std::vector<uint64_t>& alpha) {
  const size_t bound = num * (3 * K / 2 + 1);
  std::vector<size_t> ch(bound, 0);
  for (;;) {
    size_t used = 0;
    std::string s;
    ex::at("K=%zu num=%zu (sequence follows)", K, num);
    const int f0 = ex::st().fails;
    Run<K>::go(num, [&](size_t step, size_t, size_t) {
      used = step + 1;
      s += std::to_string(alpha[ch[step]]) + ",";
      return alpha[ch[step]];
    }, false);
    ex::add(0, 1);
    if (ex::st().fails > f0) ex::failc(("costs " + s).c_str(), "K=%zu num=%zu violates the above", K, num);
    if (ex::many()) return;
    // next sequence: increment the last used choice
    size_t k = used;
    while (k > 0 && ch[k - 1] + 1 == alpha.size()) ch[--k] = 0;
    if (k == 0) break;
    ch[k - 1]++;
  }
}
GROUP(tuner_sequences_1) {
  for (size_t n = 1; n <= 5; n++) sequences<1>(n, {1, 2, 100});
  ex::sample("every cost sequence over {1,2,100}, 1-5 candidates, kMinSamples 1");
}
GROUP(tuner_sequences_2) {
  for (size_t n = 1; n <= 3; n++) sequences<2>(n, {1, 2, 100});
  sequences<2>(2, {0, 5, 6, 8, ~0ull});
  if (ex::thorough()) sequences<2>(4, {1, 2, 100});
}
GROUP(tuner_sequences_3) {
  sequences<3>(2, {1, 2, 100});
  sequences<3>(3, {1, 3});
  sequences<5>(2, {1, 3});
}
template <size_t K>
static void constants() {
  // constant cost per candidate: the cheapest one wins, whatever the order
  const std::vector<uint64_t> alpha{0, 1, 2, 3, 1000};
  for (size_t num = 1; num <= 5; num++) {
    std::vector<size_t> a(num, 0);
    for (;;) {
      ex::at("K=%zu constant costs of %zu candidates: %zu %zu..", K, num, a[0], a[num - 1]);
      Run<K>::go(num, [&](size_t, size_t i, size_t) { return alpha[a[i]]; }, true);
      ex::add(0, 1);
      size_t k = 0;
      while (k < num && ++a[k] == alpha.size()) a[k++] = 0;
      if (k == num) break;
      if (ex::many()) return;
    }
  }
}
GROUP(tuner_constant) { constants<1>(); constants<2>(); constants<4>(); constants<10>(); constants<16>(); constants<30>(); }
GROUP(tuner_many_candidates) {
  for (size_t num : {20u, 100u, 255u, 256u, 257u, 1000u})
    for (size_t cheap = 0; cheap < num; cheap += num < 300 ? 1 : 37) {
      ex::at("%zu candidates, cheapest %zu", num, cheap);
      for (int shape = 0; shape < 3; shape++) {
        Run<2>::go(num, [&](size_t, size_t i, size_t m) -> uint64_t {
          if (i == cheap) return 100;
          return shape == 0 ? 1000 : shape == 1 ? 101 + i % 50 : 110 + (i * 7 + m) % 1000;
        }, true);
        ex::add(0, 1);
      }
    }
}
int main(int argc, char** argv) { return ex::main(argc, argv); }
