// C33: the profiler on a virtual time stamp counter. Every history of zones is
// run in a forked child (PrintResults may be called once per process) whose
// output is compared with counts and self times computed from the history.
#define PROFILER_ENABLED 1
#define PROFILER_THREAD_STORAGE 1ULL
#include "hwy/profiler.h"

#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>

#include <algorithm>
#include <map>
#include <string>
#include <vector>

#include "ex.h"

namespace {
volatile uint64_t g_clock;
volatile uint64_t g_read_cost;
bool g_have_stop = true;
}  // namespace
extern "C" __attribute__((target("general-regs-only"), noinline)) uint64_t st_clock(int) {
  g_clock = g_clock + g_read_cost;
  return g_clock;
}
extern "C" __attribute__((target("general-regs-only"))) void st_cpuid(uint32_t, uint32_t, uint32_t* o) { o[0] = o[1] = o[2] = o[3] = 0; }
extern "C" __attribute__((target("general-regs-only"))) uint64_t st_xgetbv(uint32_t) { return 0; }

namespace hwy {
namespace platform {
bool HaveTimerStop(char* cpu100) {
  strcpy(cpu100, "Old CPU");
  return g_have_stop;
}
double InvariantTicksPerSecond() { return 8.0; }
double Now() { return 0; }
uint64_t TimerResolution() { return 1; }
bool GetCpuString(char* s) { strcpy(s, "Old CPU"); return true; }
}  // namespace platform
// Blocks end directly before an inaccessible page; nothing is freed.
void* AllocateAlignedBytes(const size_t n, AllocPtr, void*) {
  ex::Guard* g = new ex::Guard((n + HWY_ALIGNMENT - 1) / HWY_ALIGNMENT * HWY_ALIGNMENT);
  uint8_t* p = g->end() - n;
  return p - reinterpret_cast<uintptr_t>(p) % HWY_ALIGNMENT;
}
void FreeAlignedBytes(const void*, FreePtr, void*) {}
void AlignedDeleter::DeleteAlignedArray(void*, FreePtr, void*, ArrayDeleter) {}
static bool Less(const uint128_t& a, const uint128_t& b) { return a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo; }
void VQSort(uint128_t* HWY_RESTRICT keys, const size_t n, SortDescending) {
  std::sort(keys, keys + n, [](const uint128_t& a, const uint128_t& b) { return Less(b, a); });
}
void VQSort(uint128_t* HWY_RESTRICT keys, const size_t n, SortAscending) { std::sort(keys, keys + n, Less); }
}  // namespace hwy

namespace {
// Names at distinct addresses; several may have the same text.
alignas(64) char g_names[300][64];
const char* name(int i, const char* fmt, int v) {
  snprintf(g_names[i], sizeof g_names[i], fmt, v);
  return g_names[i];
}
struct Exp { uint64_t calls = 0, self = 0; };
typedef std::map<std::string, Exp> Want;

// One event of a history: zone index to enter, or -1 to leave; `dt` passes
// before it.
struct Ev { int zone; uint64_t dt; };
typedef std::vector<Ev> Hist;
std::vector<const char*> g_nm;

size_t run_zones(const Hist& h, size_t i) {
  while (i < h.size() && h[i].zone >= 0) {
    g_clock = g_clock + h[i].dt;
    {
      hwy::Zone z(g_nm[h[i].zone]);
      i = run_zones(h, i + 1);
      g_clock = g_clock + h[i].dt;
    }
    i++;
  }
  return i;
}
void expect(const Hist& h, Want* w) {
  struct F { int zone; uint64_t self; };
  std::vector<F> st;
  for (const Ev& e : h) {
    if (!st.empty()) st.back().self += e.dt;
    if (e.zone >= 0) {
      st.push_back({e.zone, 0});
    } else {
      Exp& x = (*w)[g_nm[st.back().zone]];
      x.calls++;
      x.self += st.back().self;
      st.pop_back();
    }
  }
}
bool g_warm;
void warm() {
  if (g_warm) return;
  g_warm = true;
  g_clock = 1000;
  g_read_cost = 0;
  { PROFILER_ZONE("warm"); }
}
// Runs `body` in a child, prints the results there and compares.
template <class F>
void child(const F& body, Want want, uint64_t slack_per_call = 0, bool print = true) {
  if (g_warm) want["warm"].calls = 1;
  int p[2];
  if (pipe(p)) return;
  fflush(stdout);
  fflush(ex::st().out);
  const pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    dup2(p[1], 1);
    for (int sg : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM}) signal(sg, SIG_DFL);
    alarm(60);
    body();
    if (print) PROFILER_PRINT_RESULTS();
    fflush(stdout);
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char b[65536];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  ex::add();
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    EX_FAIL("the program died with status %x; output %s", st, got.substr(0, 300).c_str());
    return;
  }
  double prev = 1e300;
  size_t pos = 0;
  while (pos < got.size()) {
    size_t nl = got.find('\n', pos);
    if (nl == std::string::npos) nl = got.size();
    const std::string line = got.substr(pos, nl - pos);
    pos = nl + 1;
    if (line.compare(0, 15, "Total analysis ") == 0) continue;
    const size_t c = line.rfind(": ");
    unsigned long long calls;
    double avg, total;
    if (c == std::string::npos || sscanf(line.c_str() + c + 2, "%llu x %lf = %lf", &calls, &avg, &total) != 3) {
      EX_FAIL("unexpected output: %s", line.c_str());
      return;
    }
    std::string nm = line.substr(0, c);
    while (!nm.empty() && nm.back() == ' ') nm.pop_back();
    auto it = want.find(nm);
    if (it == want.end()) {
      EX_FAIL("zone %s was printed twice or never entered: %s; output:\n%s", nm.c_str(), line.c_str(), got.substr(0, 300).c_str());
      return;
    }
    const double self = total * 8.0;
    const double want_self = static_cast<double>(it->second.self);
    const double tol = static_cast<double>(slack_per_call * it->second.calls);
    EX_CHECK(calls == it->second.calls, "%s: %llu calls instead of %llu", nm.c_str(), calls, (unsigned long long)it->second.calls);
    EX_CHECK(self >= want_self - tol - 0.001 && self <= want_self + tol + 0.001, "%s: self time %.3f instead of %.0f", nm.c_str(), self, want_self);
    EX_CHECK(calls == 0 || (avg >= self / calls - 0.51 && avg <= self / calls + 0.51), "%s: average %.0f of total %.0f for %llu calls", nm.c_str(), avg, self, calls);
    EX_CHECK(total <= prev, "not in descending order: %s", line.c_str());
    prev = total;
    want.erase(it);
  }
  for (auto& kv : want) EX_FAIL("zone %s (%llu calls) was not printed; output:\n%s", kv.first.c_str(), (unsigned long long)kv.second.calls, got.substr(0, 300).c_str());
}
std::string show(const Hist& h) {
  std::string s;
  for (const Ev& e : h) {
    s += e.zone < 0 ? std::string(")") : std::string(1, char('a' + e.zone)) + "(";
    if (s.size() > 80) break;
  }
  return s;
}
// All forests of `n` zones with all labels below `labels`.
template <class F>
void forests(int n, int labels, const F& f) {
  std::vector<int> ev;
  std::vector<Ev> h;
  auto rec = [&](auto&& self, int open, int left) -> void {
    if (open == 0 && left == 0) { f(ev); return; }
    if (left)
      for (int l = 0; l < labels; l++) {
        ev.push_back(l);
        self(self, open + 1, left - 1);
        ev.pop_back();
      }
    if (open) {
      ev.push_back(-1);
      self(self, open - 1, left);
      ev.pop_back();
    }
  };
  rec(rec, 0, n);
}
uint64_t dt_of(int pat, size_t i) {
  switch (pat) {
    case 0: return 1ull << i;                    // every sum identifies its parts
    case 1: return i % 3 == 2 ? 0 : 5;           // ties and empty zones
    default: return (1ull << 34) + (i * 7) % 5;  // long zones (several seconds)
  }
}
void zone_names() {
  g_nm.clear();
  g_nm.push_back(name(0, "alpha", 0));
  g_nm.push_back(name(1, "beta", 0));
  g_nm.push_back(name(2, "alpha", 0));  // the same name, another literal
  g_nm.push_back(name(3, "alphabet", 0));
}
struct ThreadArg { const Hist* h; };
void* thread_main(void* a) {
  run_zones(*static_cast<ThreadArg*>(a)->h, 0);
  return nullptr;
}
void in_thread(const Hist& h) {
  ThreadArg a{&h};
  pthread_t t;
  pthread_create(&t, nullptr, thread_main, &a);
  pthread_join(t, nullptr);
}
Hist make(const std::vector<int>& ev, int pat) {
  Hist h;
  for (size_t i = 0; i < ev.size(); i++) h.push_back({ev[i], dt_of(pat, i)});
  return h;
}
}  // namespace

// Must come first: the parent has not entered any zone yet.
#if PART == 0
GROUP(threads) {
  zone_names();
  const std::vector<std::vector<int>> hs = {{}, {0, -1}, {1, 0, -1, -1}, {2, -1, 1, -1}};
  const int n = (int)hs.size();
  // which threads enter zones: main (or not), then up to three others
  for (int nt = 0; nt <= 2; nt++)
    for (int combo = 0; combo < (nt == 0 ? n : nt == 1 ? n * n : n * n * n); combo++) {
      if (nt == 2 && !ex::thorough() && combo % 3 == 1) continue;
      int c = combo;
      std::vector<Hist> per;
      for (int t = 0; t <= nt; t++) {
        per.push_back(make(hs[c % n], t));
        c /= n;
      }
      for (int order = 0; order < (nt ? 2 : 1); order++) {
        // main's zones before or after those of the other threads
        std::string d;
        for (auto& h : per) d += show(h) + " | ";
        ex::at("main and %d threads: %s order %d", nt, d.c_str(), order);
        Want w;
        for (auto& h : per) expect(h, &w);
        child([&] {
          g_clock = 77;
          if (!order) run_zones(per[0], 0);
          for (int t = 1; t <= nt; t++) in_thread(per[t]);
          if (order) run_zones(per[0], 0);
        }, w);
        if (ex::many()) return;
      }
    }
  for (int nt : {3, 4, 7, 20}) {
    // each thread enters its own zone, a common one, and thread 5 none
    g_nm.clear();
    for (int i = 0; i <= nt; i++) g_nm.push_back(name(i, i == 3 ? "thread %d's only" : "zone of thread %d", i));
    g_nm.push_back(name(nt + 1, "common", 0));
    std::vector<Hist> per;
    Want w;
    for (int t = 0; t <= nt; t++) {
      per.push_back({});
      if (t == 5) continue;
      per[t] = {{t, 1}, {nt + 1, 2}, {-1, 1ull << t}, {-1, 3ull << t}};
      expect(per[t], &w);
    }
    ex::at("main and %d threads", nt);
    child([&] {
      g_clock = 77;
      run_zones(per[0], 0);
      for (int t = 1; t <= nt; t++) in_thread(per[t]);
    }, w);
  }
  // no zone anywhere
  ex::at("no zones");
  child([] {}, Want());
}

GROUP(old_cpu) {
  // Without RDTSCP, entering a zone must abort rather than execute it.
  ex::at("no RDTSCP");
  int p[2];
  if (pipe(p)) return;
  fflush(ex::st().out);
  pid_t pid = fork();
  if (pid == 0) {
    for (int sg : {SIGABRT, SIGILL, SIGTRAP}) signal(sg, SIG_DFL);
    dup2(p[1], 2);
    close(p[0]);
    g_have_stop = false;
    { PROFILER_ZONE("x"); }
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char b[4096];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, n);
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  EX_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "did not abort");
  EX_CHECK(got.find("Old CPU") != std::string::npos, "message: %s", got.c_str());
  ex::add();
}
#endif

#if PART == 1
GROUP(histories) {
  zone_names();
  warm();
  const int depth = ex::thorough() ? 6 : 5;
  for (int n = 0; n <= depth; n++)
    forests(n, n == depth ? 3 : 4, [&](const std::vector<int>& ev) {
      if (ex::many()) return;
      for (int pat = 0; pat < (n == depth ? 1 : 3); pat++) {
        const Hist h = make(ev, pat);
        ex::at("%s pattern %d", show(h).c_str(), pat);
        Want w;
        expect(h, &w);
        child([&] { run_zones(h, 0); }, w);
      }
    });
}
#endif
#if PART == 2
// Timestamps near every power of two where truncation could matter.
GROUP(wraparound) {
  zone_names();
  warm();
  for (int bit = 24; bit <= 64; bit++)
    for (int64_t d = -12; d <= 3; d++) {
      if (ex::many()) return;
      const uint64_t base = (bit == 64 ? 0 : 1ull << bit) + d;
      for (int pat = 0; pat < 3; pat++) {
        const Hist h = make({0, 1, -1, 0, -1, -1, 3, -1}, pat);
        ex::at("start at 2^%d%+d pattern %d", bit, (int)d, pat);
        Want w;
        expect(h, &w);
        child([&] { g_clock = base; run_zones(h, 0); }, w);
      }
    }
  // durations up to the documented minute at 4 GHz
  for (int bit = 0; bit <= 38; bit++)
    for (int64_t d = -1; d <= 1; d++) {
      const uint64_t dur = (1ull << bit) + d;
      if (dur > (240ull << 30)) continue;
      Hist h = {{0, 3}, {-1, dur}, {1, 1}, {0, 2}, {-1, dur / 2}, {-1, dur - dur / 2}, {0, 9}, {-1, 1}};
      ex::at("duration 2^%d%+d", bit, (int)d);
      Want w;
      expect(h, &w);
      child([&] { g_clock = ~0ull - 5; run_zones(h, 0); }, w);
    }
}

// Reading the clock costs time: counts stay exact, times nearly.
GROUP(read_cost) {
  zone_names();
  for (uint64_t cost : {1, 7, 40, 1000})
    for (int pat = 0; pat < 2; pat++) {
      Hist h = make({0, 1, -1, 3, -1, -1, 0, -1, 1, -1}, pat);
      for (Ev& e : h) e.dt = e.dt * 16 + 20 * cost;
      ex::at("read cost %d pattern %d", (int)cost, pat);
      Want w;
      expect(h, &w);
      child([&] { g_read_cost = cost; in_thread(h); }, w, 6 * cost + 2);
    }
}
#endif
#if PART == 3
// The write buffer and the storage fill up at every phase of a history.
GROUP(buffers) {
  zone_names();
  warm();
  for (int n = 1; n <= (ex::thorough() ? 200 : 70); n++)
    for (int shape = 0; shape < 4; shape++) {
      if (ex::many()) return;
      Hist h;
      for (int i = 0; i < n; i++) {
        h.push_back({i % 3, 1ull << (i % 13)});
        if (shape == 1) { h.push_back({(i + 1) % 3, 3}); h.push_back({-1, 2}); }
        if (shape == 2 && i % 7 == 3) { h.push_back({3, 4}); h.push_back({0, 3}); h.push_back({-1, 1}); h.push_back({-1, 9}); }
        if (shape == 3 && n <= 64) continue;  // nest everything
        h.push_back({-1, 11});
      }
      if (shape == 3 && n <= 64) for (int i = 0; i < n; i++) h.push_back({-1, (uint64_t)(i % 5)});
      ex::at("%d zones shape %d", n, shape);
      Want w;
      expect(h, &w);
      child([&] { run_zones(h, 0); }, w);
    }
}
GROUP(storage_full) {
  zone_names();
  warm();
  // the warm zone took two packets of the 131072
  const int kPackets = (1 << 20) / 8;
  const int r = ex::thorough() ? 40 : 20;
  for (int shape = 0; shape < 4; shape++)
    for (int extra = -r; extra <= r; extra++) {
      if (ex::many()) return;
      const int zones = kPackets / 2 + extra;
      Hist h;
      h.reserve(2 * zones + 8);
      int made = 0;
      if (shape == 1) { h.push_back({3, 100}); made++; }  // one zone spans everything
      if (shape == 3) for (int i = 0; i < 60; i++) { h.push_back({i % 4, 3}); made++; }
      while (made < zones) {
        h.push_back({made % 3, 1 + (uint64_t)(made % 5)});
        made++;
        if (shape == 2 && made < zones) { h.push_back({3, 2}); h.push_back({-1, 1}); made++; }
        h.push_back({-1, 2});
      }
      if (shape == 1) h.push_back({-1, 50});
      if (shape == 3) for (int i = 0; i < 60; i++) h.push_back({-1, 1});
      ex::at("%d zones shape %d around full storage", zones, shape);
      Want w;
      expect(h, &w);
      child([&] { run_zones(h, 0); }, w);
      // and twice the storage
      if (extra % 8 == 0) {
        Hist h2 = h;
        h2.insert(h2.end(), h.begin(), h.end());
        Want w2;
        expect(h2, &w2);
        ex::at("2 * %d zones shape %d around full storage", zones, shape);
        child([&] { run_zones(h2, 0); }, w2);
      }
    }
}
// Many zones, every split into names, and duplicates everywhere.
GROUP(many_zones) {
  warm();
  for (int total : {1, 2, 3, 17, 100, 254, 255})
    for (int texts : {1, 2, 3, 50, 254, 255}) {
      if (texts > total) continue;
      for (int order = 0; order < 3; order++) {
        g_nm.clear();
        for (int i = 0; i < total; i++) g_nm.push_back(name(i, "zone number %d", i % texts));
        Hist h;
        for (int i = 0; i < total; i++) {
          const int z = order == 0 ? i : order == 1 ? total - 1 - i : (i * 7 + 3) % total;
          for (int rep = 0; rep <= z % 3; rep++) {
            h.push_back({z, 1});
            h.push_back({-1, 1 + (uint64_t)z * 5});
          }
        }
        ex::at("%d zones, %d names, order %d", total, texts, order);
        Want w;
        expect(h, &w);
        child([&] { run_zones(h, 0); }, w);
      }
    }
  // all assignments of 5 zones to 3 names, in all orders of leaving
  for (int m = 0; m < 243; m++) {
    g_nm.clear();
    int c = m;
    for (int i = 0; i < 5; i++) { g_nm.push_back(name(i, "n%d", c % 3)); c /= 3; }
    int perm[5] = {0, 1, 2, 3, 4};
    do {
      if (ex::many()) return;
      if (!ex::thorough() && (perm[0] + m) % 3) continue;
      Hist h;
      for (int i = 0; i < 5; i++) { h.push_back({perm[i], 1}); h.push_back({-1, 1ull << (3 * i)}); }
      ex::at("names %d order %d%d%d%d%d", m, perm[0], perm[1], perm[2], perm[3], perm[4]);
      Want w;
      expect(h, &w);
      child([&] { run_zones(h, 0); }, w);
    } while (std::next_permutation(perm, perm + 5));
  }
}
// Two threads inside zones at the same time, every interleaving of their events.
namespace {
struct Co {
  const Hist* h;
  sem_t go, done;
  size_t i = 0;
  void step() { sem_post(&go); sem_wait(&done); }
};
size_t co_zones(Co* c, size_t i) {
  const Hist& h = *c->h;
  while (i < h.size() && h[i].zone >= 0) {
    sem_wait(&c->go);
    {
      hwy::Zone z(g_nm[h[i].zone]);
      sem_post(&c->done);
      i = co_zones(c, i + 1);
      sem_wait(&c->go);
    }
    sem_post(&c->done);
    i++;
  }
  return i;
}
void* co_main(void* a) { co_zones(static_cast<Co*>(a), 0); return nullptr; }
}  // namespace
GROUP(interleaved) {
  zone_names();
  for (int mask = 0; mask < 256; mask++) {
    if (__builtin_popcount(mask) != 4) continue;
    Hist h[2] = {make({0, 1, -1, -1}, 0), make({1, -1, 2, -1}, 0)};
    // the time of every event of each thread
    Hist e[2];
    uint64_t t = 1, last[2] = {0, 0};
    size_t idx[2] = {0, 0};
    for (int i = 0; i < 8; i++) {
      const int th = mask >> i & 1;
      t += 1ull << i;
      e[th].push_back({h[th][idx[th]++].zone, t - last[th]});
      last[th] = t;
    }
    Want w;
    expect(e[0], &w);
    expect(e[1], &w);
    ex::at("interleaving %02x", mask);
    child([&] {
      static Co co[2];
      pthread_t pt[2];
      g_clock = 0;
      for (int k = 0; k < 2; k++) {
        co[k].h = &h[k];
        sem_init(&co[k].go, 0, 0);
        sem_init(&co[k].done, 0, 0);
        pthread_create(&pt[k], nullptr, co_main, &co[k]);
      }
      uint64_t now = 1;
      for (int i = 0; i < 8; i++) {
        now += 1ull << i;
        g_clock = now;
        co[mask >> i & 1].step();
      }
      for (auto& p : pt) pthread_join(p, nullptr);
    }, w);
  }
}
#endif

int main(int argc, char** argv) { return ex::main(argc, argv); }
