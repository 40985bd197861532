// C08: BitSet64 / BitSet4096 against std::set: every reachable state over a
// boundary index set, every operation from each, every observation compared.
#include <map>
#include <set>
#include "ex.h"
#include "hwy/bit_set.h"

using Ref = std::set<size_t>;
static std::string show(const Ref& r) {
  std::string s = "{";
  int k = 0;
  for (size_t i : r) { if (k++ < 12) s += std::to_string(i) + ","; }
  return s + "}" + (k > 12 ? "+" + std::to_string(k - 12) : "");
}
static uint64_t low64(const Ref& r) {
  uint64_t b = 0;
  for (size_t i : r) if (i < 64) b |= 1ull << i;
  return b;
}

// Compares all observations of `s` with the reference.
template <class S>
static bool same(const S& s, const Ref& r, size_t max, const char* how) {
  const int f0 = ex::st().fails;
  EX_CHECK(s.Any() == !r.empty(), "%s: Any()=%d for %s", how, s.Any(), show(r).c_str());
  EX_CHECK(s.Count() == r.size(), "%s: Count()=%zu for %s", how, s.Count(), show(r).c_str());
  EX_CHECK(s.Get64() == low64(r), "%s: Get64()=%llx for %s", how, (unsigned long long)s.Get64(), show(r).c_str());
  if (!r.empty()) EX_CHECK(s.First() == *r.begin(), "%s: First()=%zu for %s", how, s.First(), show(r).c_str());
  for (size_t i = 0; i < max; i++)
    if (s.Get(i) != (r.count(i) != 0)) { EX_FAIL("%s: Get(%zu)=%d for %s", how, i, s.Get(i), show(r).c_str()); break; }
  std::vector<size_t> seen;
  s.Foreach([&](size_t i) { if (seen.size() < 5000) seen.push_back(i); });
  EX_CHECK(seen == std::vector<size_t>(r.begin(), r.end()), "%s: Foreach visits %zu items, expected %s in order", how, seen.size(), show(r).c_str());
  ex::add();
  return f0 == ex::st().fails;
}

// ForeachMutation: what iteration must visit if `f` changes the set.
template <class S>
static void foreach_mut(const S& s0, const Ref& r, const std::vector<size_t>& idx, bool flat) {
  for (size_t trig : r)
    for (size_t x : idx)
      for (int set = 0; set < 2; set++) {
        S s = s0;
        std::vector<size_t> seen, want;
        Ref fin = r;
        s.Foreach([&](size_t i) {
          if (seen.size() > 5000) return;
          seen.push_back(i);
          if (i == trig) { if (set) s.Set(x); else s.Clear(x); }
        });
        if (set) fin.insert(x); else fin.erase(x);
        // Unaffected unless it changes a not yet visited, non-empty word.
        Ref at = r;
        bool word_nonempty = false;
        for (size_t y : r) word_nonempty |= y / 64 == x / 64;
        if (!flat && x / 64 > trig / 64 && word_nonempty) { if (set) at.insert(x); else at.erase(x); }
        EX_CHECK(seen == std::vector<size_t>(at.begin(), at.end()), "Foreach over %s with %s(%zu) at %zu visited %zu items", show(r).c_str(), set ? "Set" : "Clear", x, trig, seen.size());
        same(s, fin, 0, "after mutation");
      }
}

// Breadth-first exploration of all states reachable with the given alphabet.
template <class S>
static void explore(const char* what, const std::vector<size_t>& idx, const std::vector<uint64_t>& words, size_t max, bool flat, bool mut) {
  std::map<Ref, S> states;
  std::vector<Ref> todo{Ref()};
  states[Ref()] = S();
  same(states[Ref()], Ref(), max, "initially");
  for (size_t q = 0; q < todo.size() && !ex::many(); q++) {
    const Ref r = todo[q];
    const S s = states[r];
    auto step = [&](const S& n, const Ref& nr, const char* how) {
      auto it = states.find(nr);
      ex::add();
      if (it == states.end()) {
        if (same(n, nr, max, how)) { states[nr] = n; todo.push_back(nr); }
      } else if (memcmp(&it->second, &n, sizeof(S))) {
        // Same set reached by another history: behaves identically?
        same(n, nr, max, how);
      }
    };
    for (size_t i : idx) {
      ex::at("%s: %s Set(%zu)", what, show(r).c_str(), i);
      { S n = s; Ref nr = r; n.Set(i); nr.insert(i); step(n, nr, "after Set"); }
      ex::at("%s: %s Clear(%zu)", what, show(r).c_str(), i);
      { S n = s; Ref nr = r; n.Clear(i); nr.erase(i); step(n, nr, "after Clear"); }
    }
    for (uint64_t w : words) {
      ex::at("%s: %s SetNonzeroBitsFrom64(%llx)", what, show(r).c_str(), (unsigned long long)w);
      S n = s;
      Ref nr = r;
      n.SetNonzeroBitsFrom64(w);
      for (size_t i = 0; i < 64; i++) if (w >> i & 1) nr.insert(i);
      step(n, nr, "after SetNonzeroBitsFrom64");
    }
    if (mut && (r.size() <= 6 || ex::thorough())) foreach_mut(s, r, idx, flat);
  }
  ex::sample("%s: %zu states from %zu indices and %zu words", what, states.size(), idx.size(), words.size());
}

GROUP(bitset64_states) {
  explore<hwy::BitSet64>("bs64", {0, 1, 2, 31, 32, 33, 62, 63}, {0, 1, 1ull << 63, 0x8000000000000001ull, 0x180000000ull}, 64, true, true);
}
GROUP(bitset64_pairs) {
  for (size_t i = 0; i < 64; i++)
    for (size_t j = 0; j < 64; j++)
      for (int op = 0; op < 4; op++) {
        ex::at("bs64 %zu %zu op %d", i, j, op);
        hwy::BitSet64 s;
        Ref r;
        auto a = [&](size_t k) { s.Set(k); r.insert(k); };
        auto c = [&](size_t k) { s.Clear(k); r.erase(k); };
        if (op & 1) { s.SetNonzeroBitsFrom64(~0ull); for (size_t k = 0; k < 64; k++) r.insert(k); c(i); c(j); a(i); if (op & 2) c(i); }
        else { a(i); a(j); if (op & 2) c(i); }
        same(s, r, 64, "pair");
      }
}
GROUP(bitset64_words) {
  // all runs of ones and their complements, in words
  for (int a = 0; a < 64; a++)
    for (int b = a; b < 64; b++)
      for (int inv = 0; inv < 2; inv++) {
        uint64_t w = (b == 63 ? ~0ull : (1ull << (b + 1)) - 1) & ~((1ull << a) - 1);
        if (inv) w = ~w;
        ex::at("bs64 word %llx", (unsigned long long)w);
        hwy::BitSet64 s;
        Ref r;
        s.SetNonzeroBitsFrom64(w);
        for (size_t i = 0; i < 64; i++) if (w >> i & 1) r.insert(i);
        same(s, r, 64, "word");
      }
}
template <size_t M>
static void big(const char* what) {
  std::vector<size_t> idx;
  for (size_t i : {size_t(0), size_t(1), size_t(63), size_t(64), size_t(127), size_t(128), size_t(2048), M - 65, M - 64, M - 2, M - 1}) {
    bool dup = i >= M;
    for (size_t j : idx) dup |= j == i;
    if (!dup && idx.size() < (ex::thorough() ? 12u : 9u)) idx.push_back(i);
  }
  bool has = false;
  for (size_t j : idx) has |= j == M - 1;
  if (!has) idx.back() = M - 1;
  std::vector<uint64_t> words{0, 1};
  if (M >= 64) words.push_back(1ull << 63);
  explore<hwy::BitSet4096<M>>(what, idx, words, M, false, true);
}
template <size_t M>
static void fit(const char* what) {
  // Sets of every size in use: guard words around must stay intact.
  struct Box { uint64_t pre[4]; hwy::BitSet4096<M> s; uint64_t post[72]; };
  Box* b = new Box();
  memset(b->pre, 0x55, sizeof b->pre);
  memset(b->post, 0x55, sizeof b->post);
  Ref r;
  for (size_t i = 0; i < M; i++) {
    ex::at("%s Set(%zu)", what, i);
    b->s.Set(i);
    r.insert(i);
    EX_CHECK(b->s.Get(i) && b->s.Count() == i + 1, "wrong after Set");
    for (uint64_t p : b->post) if (p != 0x5555555555555555ull) { EX_FAIL("wrote outside the set"); delete b; return; }
    ex::add();
  }
  same(b->s, r, M, "full");
  for (size_t i = 0; i < M; i++) {
    ex::at("%s Clear(%zu)", what, i);
    b->s.Clear(i);
    r.erase(i);
    if (M < 300 || i % 16 == 0 || i + 70 > M) same(b->s, r, M, "clearing");
    EX_CHECK(!b->s.Get(i) && b->s.Count() == M - i - 1 && b->s.Any() == (i + 1 < M) && (i + 1 == M || b->s.First() == i + 1), "wrong after Clear");
  }
  for (uint64_t p : b->post) if (p != 0x5555555555555555ull) { EX_FAIL("wrote outside the set"); break; }
  delete b;
  ex::sample("%s: every index set then cleared", what);
}
GROUP(bitset4096_states) { big<4096>("bs4096"); }
GROUP(bitset1024_states) { big<1024>("bs1024"); }
GROUP(bitset128_states) { big<128>("bs128"); }
GROUP(bitset64_2level_states) { big<64>("bs4096<64>"); }
GROUP(bitset4096_pairs) {
  const size_t M = 4096;
  hwy::BitSet4096<M> s;
  for (size_t i = 0; i < M && !ex::many(); i++) {
    s.Set(i);
    for (size_t j = i + 1; j < M; j++) {
      s.Set(j);
      const bool ok = s.Any() && s.First() == i && s.Get(i) && s.Get(j);
      bool ok2 = true;
      if ((j - i) % 61 == 1 || j / 64 == i / 64) {
        size_t n = 0, a = 0, b = 0;
        s.Foreach([&](size_t k) { (n++ ? b : a) = k; });
        ok2 = n == 2 && a == i && b == j && s.Count() == 2;
      }
      s.Clear(i);
      const bool ok3 = s.Any() && s.First() == j && !s.Get(i) && s.Get(j);
      s.Clear(j);
      const bool ok4 = !s.Any() && !s.Get(j);
      if (!(ok && ok2 && ok3 && ok4)) {
        ex::at("pair %zu %zu", i, j);
        EX_FAIL("pair (%zu, %zu): %d %d %d %d", i, j, ok, ok2, ok3, ok4);
        s = hwy::BitSet4096<M>();
        s.Set(i);
        if (ex::many()) break;
        continue;
      }
      s.Set(i);
    }
    s.Clear(i);
    ex::add(M - i);
  }
}
GROUP(sizes) {
  fit<1>("max 1"); fit<2>("max 2"); fit<63>("max 63"); fit<64>("max 64"); fit<65>("max 65"); fit<100>("max 100");
  fit<127>("max 127"); fit<128>("max 128"); fit<129>("max 129"); fit<1000>("max 1000"); fit<1024>("max 1024");
  fit<4032>("max 4032"); fit<4033>("max 4033"); fit<4095>("max 4095"); fit<4096>("max 4096");
}
int main(int argc, char** argv) { return ex::main(argc, argv); }
