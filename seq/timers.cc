// C32: timer.h, timer.cc and nanobenchmark.cc on a virtual processor: RDTSC,
// RDTSCP and CPUID are answered here, and so is the system's steady clock.
#include "hwy/nanobenchmark.h"
#include "hwy/timer.h"

#include <math.h>
#include <sys/wait.h>
#include <time.h>

#include <map>
#include <string>
#include <vector>

#include "ex.h"
#include "hwy/robust_statistics.h"

namespace {
// Time stamp counter and its rate; the steady clock shows the same time.
volatile uint64_t g_ticks, g_origin;
uint64_t g_rate = 1000000000ull;
// What each reading of the counter costs, and the disturbances.
volatile uint64_t g_cost;
volatile uint64_t g_every, g_phase, g_extra, g_reads, g_rdtscp;
volatile uint64_t g_jit;  // cost varies over 0..g_jit
// Steady clock: cost, and disturbances after its n-th reading
volatile uint64_t g_now_cost;
volatile uint64_t g_nows;
std::map<uint64_t, uint64_t>* g_after_now;
// CPUID
uint32_t g_max_ext = 0x80000008u;
bool g_has_rdtscp = true, g_invariant = true;
uint8_t g_brand[48];
}  // namespace
#define REGS __attribute__((target("general-regs-only"), noinline))
extern "C" REGS uint64_t st_clock(int which) {
  g_reads = g_reads + 1;
  if (which) g_rdtscp = g_rdtscp + 1;
  uint64_t c = g_cost;
  if (g_every && g_reads % g_every == g_phase) c += g_extra;
  if (g_jit) c += g_reads % (g_jit + 1);
  g_ticks = g_ticks + c;
  return g_origin + g_ticks;
}
extern "C" REGS void st_cpuid(uint32_t leaf, uint32_t, uint32_t* o) {
  o[0] = o[1] = o[2] = o[3] = 0;
  if (leaf == 0x80000000u) o[0] = g_max_ext;
  if (leaf == 0x80000001u) o[3] = 0x20100800u | (g_has_rdtscp ? 1u << 27 : 0);
  if (leaf == 0x80000007u) o[3] = g_invariant ? 1u << 8 : 0;
  if (leaf >= 0x80000002u && leaf <= 0x80000004u) {
    const uint8_t* b = g_brand + 16 * (leaf - 0x80000002u);
    for (int r = 0; r < 4; r++) o[r] = b[4 * r] | b[4 * r + 1] << 8 | b[4 * r + 2] << 16 | (uint32_t)b[4 * r + 3] << 24;
  }
}
extern "C" REGS uint64_t st_xgetbv(uint32_t) { return 0; }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept {
  g_ticks = g_ticks + g_now_cost;
  const unsigned __int128 ns = static_cast<unsigned __int128>(g_ticks) * 1000000000u / g_rate;
  ts->tv_sec = static_cast<time_t>(ns / 1000000000u);
  ts->tv_nsec = static_cast<long>(ns % 1000000000u);
  const uint64_t n = g_nows;
  g_nows = n + 1;
  if (g_after_now) {
    auto it = g_after_now->find(n);
    if (it != g_after_now->end()) g_ticks = g_ticks + it->second;
  }
  return 0;
}

namespace {
int g_warns;
void on_warn(const char*, int, const char*) { g_warns++; }
// Runs f in a child (the code caches frequency and resolution); its failures
// are passed on.
template <class F>
void child(const F& f) {
  int p[2];
  if (pipe(p)) return;
  fflush(stdout);
  fflush(ex::st().out);
  const pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    for (int sg : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM}) signal(sg, SIG_DFL);
    alarm(60);
    std::string err = f();
    if (!err.empty() && write(p[1], err.data(), err.size()) < 0) {}
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char b[4096];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, n);
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  ex::add();
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) EX_FAIL("did not terminate");
  else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) EX_FAIL("died with status %x", st);
  if (!got.empty()) EX_FAIL("%s", got.c_str());
}
__attribute__((format(printf, 1, 2))) std::string fmt(const char* f, ...) {
  char b[600];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
bool near(double a, double b, double rel) { return fabs(a - b) <= rel * fabs(b); }
}  // namespace

#if PART == 0
GROUP(ticks) {
  g_cost = 0;
  for (int b1 = 0; b1 <= 64; b1++)
    for (int b2 = 0; b2 <= 64; b2++)
      for (int d1 = -2; d1 <= 2; d1++)
        for (int d2 = -2; d2 <= 2; d2++) {
          const uint64_t t0 = (b1 == 64 ? 0 : 1ull << b1) + d1, dt = (b2 == 64 ? 0 : 1ull << b2) + d2;
          ex::at("start %llx elapsed %llx", (unsigned long long)t0, (unsigned long long)dt);
          g_origin = 0;
          g_ticks = t0;
          const hwy::timer::Ticks s = hwy::timer::Start();
          g_ticks = t0 + dt;
          const hwy::timer::Ticks e = hwy::timer::Stop();
          const hwy::timer::Ticks s2 = hwy::timer::Start();
          EX_CHECK(s == t0 && e == t0 + dt && s2 == t0 + dt, "got %llx, %llx and %llx", (unsigned long long)s, (unsigned long long)e, (unsigned long long)s2);
          EX_CHECK(hwy::Unpredictable1() == (g_ticks != ~0ull), "Unpredictable1");
          EX_CHECK(e - s == dt, "elapsed %llx", (unsigned long long)(e - s));
          ex::add();
        }
}
GROUP(cpu) {
  hwy::SetWarnFunc(on_warn);
  for (uint32_t max_ext : {0x80000000u, 0x80000001u, 0x80000003u, 0x80000004u, 0x80000005u, 0x80000008u, 0x80000021u})
    for (int bits = 0; bits < 4; bits++)
      for (int pos = -1; pos <= 48; pos++) {
        g_max_ext = max_ext;
        g_has_rdtscp = bits & 1;
        g_invariant = bits >> 1;
        // the name ends at `pos`
        for (int i = 0; i < 48; i++) g_brand[i] = i < pos ? 33 + (i * 7) % 90 : 0;
        ex::at("max leaf %x rdtscp %d invariant %d name of %d", max_ext, bits & 1, bits >> 1, pos);
        const std::string want = max_ext >= 0x80000004u && pos > 0 ? std::string((char*)g_brand, pos) : "";
        ex::Guard g(100);
        char* s = reinterpret_cast<char*>(g.end() - 100);
        memset(s, 'x', 100);
        const bool r = hwy::platform::GetCpuString(s);
        EX_CHECK(r == (max_ext >= 0x80000004u), "GetCpuString returned %d", r);
        EX_CHECK(memchr(s, 0, 100) != nullptr && want == s, "name %.100s", s);
        memset(s, 'x', 100);
        g_warns = 0;
        const bool h = hwy::platform::HaveTimerStop(s);
        EX_CHECK(h == g_has_rdtscp, "HaveTimerStop returned %d", h);
        EX_CHECK(memchr(s, 0, 100) != nullptr && (h ? s[0] == 0 : want == s), "name %.100s", s);
        if (h) EX_CHECK((g_warns != 0) == !g_invariant, "%d warnings about a frequency that is %sinvariant", g_warns, g_invariant ? "" : "not ");
        ex::add();
      }
  g_max_ext = 0x80000008u;
  g_has_rdtscp = g_invariant = true;
}
GROUP(rate) {
  for (uint64_t rate : {1000000ull, 24000000ull, 1000000000ull, 2499999999ull, 3600000000ull, 5000000000ull, 1000000000000ull})
    for (uint64_t origin : {0ull, 0xFFFFFF00ull, ~0ull - 100000, 1ull << 63})
      for (uint64_t step_ns : {50ull, 1000ull, 30011ull, 999999ull, 4000001ull, 9999999ull, 10000000ull, 77777777ull, 3000000000ull})
        for (int cost = 0; cost < 2; cost++) {
          uint64_t step = static_cast<uint64_t>(static_cast<unsigned __int128>(rate) * step_ns / 1000000000u);
          if (step == 0) step = 1;
          ex::at("rate %llu origin %llx clock step %llu cost %d", (unsigned long long)rate, (unsigned long long)origin, (unsigned long long)step, cost);
          child([&]() -> std::string {
            g_rate = rate;
            g_origin = origin;
            g_ticks = 123456789;
            g_now_cost = step;
            g_cost = cost;
            const double f = hwy::platform::InvariantTicksPerSecond();
            // relative error from the finite resolution of both clocks
            const double tol = 3.0 / (0.01 * rate) + 1e-6;
            if (!near(f, static_cast<double>(rate), tol)) return fmt("measured %.9g ticks per second", f);
            g_ticks = g_ticks * 3 + 5;
            if (f != hwy::platform::InvariantTicksPerSecond()) return "the rate changed";
            g_cost = 0;
            for (uint64_t t : {0ull, 1ull, 1000000ull, 0xFFFFFFFFull, 0x100000000ull, 1ull << 50}) {
              g_origin = 0;
              g_ticks = t;
              const double now = hwy::platform::Now();
              if (!near(now, t / f, 1e-12)) return fmt("Now() of %llu ticks is %.12g", (unsigned long long)t, now);
              hwy::Timestamp t0;
              g_ticks = t + rate;
              const double el = hwy::SecondsSince(t0);
              if (fabs(el - 1.0) > tol + 1e-6) return fmt("one second took %.9g", el);
            }
            return "";
          });
          if (ex::many()) return;
        }
}
// Up to two of the three repetitions are disturbed before their first tick.
GROUP(rate_outliers) {
  const uint64_t rate = 3000000000ull;
  // the readings of the steady clock that start a repetition depend on the step
  for (uint64_t step_ns : {10000001ull, 5000001ull, 3333334ull, 2500001ull})
    for (int mask = 0; mask < 8; mask++)
      for (uint64_t delay_ns : {1000ull, 1000000ull, 9000000ull}) {
        if (mask == 7) continue;
        const uint64_t per_rep = 1 + (10000000 + step_ns - 1) / step_ns;
        ex::at("step %d ns, repetitions %x delayed by %d ns", (int)step_ns, mask, (int)delay_ns);
        child([&]() -> std::string {
          std::map<uint64_t, uint64_t> after;
          // a delay below one step does not change the number of readings
          const uint64_t delay = delay_ns % step_ns;
          uint64_t n = 0;
          for (int rep = 0; rep < 3; rep++) {
            if (mask >> rep & 1) after[n] = delay * 3;
            // the delay shortens the loop if it covers a whole step
            uint64_t t = (mask >> rep & 1) ? delay : 0, k = 1;
            do { t += step_ns; k++; } while (t < 10000000);
            n += k;
          }
          (void)per_rep;
          g_rate = rate;
          g_now_cost = step_ns * 3;
          g_cost = 0;
          g_after_now = &after;
          const double f = hwy::platform::InvariantTicksPerSecond();
          if (!near(f, static_cast<double>(rate), 1e-5)) return fmt("measured %.9g ticks per second", f);
          return "";
        });
      }
}
GROUP(resolution) {
  for (int have = 0; have < 2; have++)
    for (uint64_t cost : {0ull, 1ull, 2ull, 3ull, 20ull, 33ull, 1000ull, 70000ull, 5000000000ull})
      for (uint64_t every : {0ull, 7ull, 8ull, 9ull, 31ull, 512ull, 513ull}) {
        for (uint64_t phase = 0; phase < (every ? (every < 10 ? every : 3) : 1); phase++)
          for (uint64_t extra : {1ull, 40ull, 1000000ull}) {
            if (!every && extra != 1) continue;
            ex::at("rdtscp %d cost %llu, every %llu (%llu) %llu more", have, (unsigned long long)cost, (unsigned long long)every, (unsigned long long)phase, (unsigned long long)extra);
            g_has_rdtscp = have;
            g_cost = cost;
            g_every = every;
            g_phase = phase;
            g_extra = extra;
            g_rdtscp = 0;
            g_origin = extra == 40 ? ~0ull - 1000 - g_ticks : 0;
            const uint64_t r = hwy::platform::TimerResolution();
            EX_CHECK(r == cost, "resolution %llu", (unsigned long long)r);
            EX_CHECK(have || g_rdtscp == 0, "RDTSCP executed on a processor without it");
            ex::add();
            if (ex::many()) return;
          }
      }
  g_has_rdtscp = true;
  g_every = 0;
  g_origin = 0;
}
#endif

#if PART > 0
namespace {
uint64_t g_dur[8];     // ticks of the function for input i
uint64_t g_calls[8], g_bad, g_ncalls;
bool g_wild;
hwy::FuncOutput body(const void* arg, hwy::FuncInput in) {
  g_ncalls++;
  const size_t i = in / 3;
  if (in % 3 || i >= 8 || arg != &g_dur) { g_bad++; return 0; }
  g_calls[i]++;
  g_ticks = g_ticks + g_dur[i];
  if (g_wild) g_ticks = g_ticks + (g_ncalls * 2654435761u >> 7) % 3000;
  return in;
}
struct Case {
  std::vector<int> in;  // indices of inputs, in order
  hwy::Params p;
  uint64_t cost, every, phase, extra, jit;
  bool closure;
};
std::string run(const Case& c, double tol_abs) {
  g_rate = 1000000000ull;
  g_now_cost = 1000003;
  g_cost = c.cost;
  g_every = c.every;
  g_phase = c.phase;
  g_extra = c.extra;
  g_jit = c.jit;
  hwy::SetWarnFunc(on_warn);
  std::vector<hwy::FuncInput> in;
  for (int i : c.in) in.push_back(3 * i);
  std::vector<hwy::Result> res(in.size() + 2);
  for (auto& r : res) r = hwy::Result{777, -1.0f, -1.0f};
  const std::vector<hwy::FuncInput> in0 = in;
  size_t n;
  if (c.closure) {
    const void* a = &g_dur;
    auto lam = [a](const hwy::FuncInput x) { return body(a, x); };
    n = hwy::MeasureClosure(lam, in.data(), in.size(), res.data(), c.p);
  } else {
    n = hwy::Measure(&body, reinterpret_cast<const uint8_t*>(&g_dur), in.data(), in.size(), res.data(), c.p);
  }
  if (in != in0) return "the inputs changed";
  if (g_bad) return "the function was called with an input that was not given";
  bool want[8] = {};
  size_t uniq = 0;
  for (int i : c.in) uniq += !want[i], want[i] = true;
  if (n != uniq) return fmt("%d results (%d warnings)", (int)n, g_warns);
  for (int i = 0; i < 8; i++)
    if (!want[i] && g_calls[i]) return "the function was called with an input that was not given";
  for (size_t i = 0; i < n; i++) {
    const size_t k = res[i].input / 3;
    if (res[i].input % 3 || k >= 8 || !want[k]) return fmt("result %d for input %d", (int)i, (int)res[i].input);
    want[k] = false;
    if (!(fabs(res[i].ticks - (double)g_dur[k]) <= 1e-6 * g_dur[k] + tol_abs)) return fmt("input %d takes %llu, reported %.6f", (int)res[i].input, (unsigned long long)g_dur[k], res[i].ticks);
    if (!(res[i].variability >= 0 && (tol_abs > 0 || res[i].variability <= c.p.target_rel_mad + 1e-6))) return fmt("variability %f", res[i].variability);
  }
  for (size_t i = n; i < res.size(); i++)
    if (res[i].input != 777 || res[i].ticks != -1.0f) return "wrote more results than returned";
  return "";
}
const uint64_t kDur[][4] = {{1, 2, 3, 4}, {100, 100, 100, 100}, {5, 1000, 7, 40}, {2000, 1, 1, 900}, {17, 18, 5000, 16}, {1023, 1024, 1025, 1}};
template <class F>
void all_inputs(int max_len, const F& f) {
  for (int len = 1; len <= max_len; len++) {
    int total = 1;
    for (int i = 0; i < len; i++) total *= 4;
    for (int m = 0; m < total; m++) {
      std::vector<int> in;
      int c = m;
      for (int i = 0; i < len; i++) { in.push_back(c % 4); c /= 4; }
      f(in);
    }
  }
}
std::string show(const std::vector<int>& v) {
  std::string s;
  for (int i : v) s += char('0' + i);
  return s;
}
}  // namespace
#endif
#if PART == 1
GROUP(measure) {
  for (int d = 0; d < 6; d++)
    all_inputs(ex::thorough() ? 4 : 3, [&](const std::vector<int>& in) {
      if (ex::many()) return;
      for (int v = 0; v < 4; v++) {
        Case c{in, {}, v == 0 ? 1ull : v == 1 ? 33ull : v == 2 ? 200ull : 20ull, 0, 0, 0, 0, v == 1};
        for (int i = 0; i < 4; i++) g_dur[i] = kDur[d][i];
        c.p.verbose = false;
        c.p.seconds_per_eval = 1e-5;
        if (v == 0) c.p.precision_divisor = 64;
        if (v == 2) c.p.precision_divisor = 300, c.p.subset_ratio = 3;
        if (v == 3) c.p.precision_divisor = 10, c.p.subset_ratio = 5, c.p.min_samples_per_eval = 70;
        ex::at("inputs %s durations %d variant %d", show(in).c_str(), d, v);
        child([&] { return run(c, 0); });
      }
    });
  // default parameters
  for (int d = 0; d < 6; d++) {
    Case c{{0, 1, 2, 3, 1}, {}, 25, 0, 0, 0, 0, false};
    for (int i = 0; i < 4; i++) g_dur[i] = kDur[d][i];
    c.p.verbose = false;
    ex::at("default parameters, durations %d", d);
    child([&] { return run(c, 0); });
  }
}
#endif
#if PART == 2
// A fraction of the samples is disturbed.
GROUP(outliers) {
  for (int d = 0; d < 6; d++)
    for (const std::vector<int>& in : {std::vector<int>{0}, {1, 0}, {2, 2, 3}, {0, 1, 2, 3}})
      for (uint64_t every : {11ull, 13ull, 31ull, 101ull})
        for (uint64_t phase = 0; phase < every; phase += (every > 20 && !ex::thorough() ? 7 : 1))
          for (uint64_t extra : {3ull, 5000ull}) {
            if (ex::many()) return;
            Case c{in, {}, 20, every, phase, extra, 0, false};
            for (int i = 0; i < 4; i++) g_dur[i] = kDur[d][i];
            c.p.verbose = false;
            c.p.seconds_per_eval = 1e-6;
            c.p.precision_divisor = 200;
            c.p.min_samples_per_eval = 20;
            ex::at("inputs %s durations %d, every %d (%d) read %d more", show(in).c_str(), d, (int)every, (int)phase, (int)extra);
            child([&] { return run(c, 0); });
          }
}
GROUP(jitter) {
  for (int d = 0; d < 6; d++)
    for (const std::vector<int>& in : {std::vector<int>{0}, {1, 0}, {2, 2, 3}, {0, 1, 2, 3}})
      for (uint64_t jit = 1; jit <= 4; jit++) {
        Case c{in, {}, 30, 0, 0, 0, jit, false};
        for (int i = 0; i < 4; i++) g_dur[i] = kDur[d][i] + 10;
        c.p.verbose = false;
        c.p.seconds_per_eval = 1e-5;
        ex::at("inputs %s durations %d, jitter %d", show(in).c_str(), d, (int)jit);
        // at least precision_divisor / duration repetitions share the jitter
        child([&] { return run(c, 4.0 * jit); });
      }
}
GROUP(failures) {
  // Without RDTSCP there is no measurement.
  ex::at("no RDTSCP");
  child([&]() -> std::string {
    g_has_rdtscp = false;
    hwy::SetWarnFunc(on_warn);
    hwy::FuncInput in[1] = {0};
    hwy::Result r[1];
    hwy::Params p;
    p.verbose = false;
    const size_t n = hwy::Measure(&body, reinterpret_cast<const uint8_t*>(&g_dur), in, 1, r, p);
    if (n) return "measured without RDTSCP";
    if (g_rdtscp) return "RDTSCP executed on a processor without it";
    if (!g_warns) return "no warning";
    return "";
  });
  // A function whose duration never settles: bounded work.
  for (int evals = 1; evals <= 5; evals++) {
    ex::at("never stable, %d evals", evals);
    child([&]() -> std::string {
      g_wild = true;
      g_cost = 20;
      g_now_cost = 1000003;
      for (int i = 0; i < 4; i++) g_dur[i] = 700;
      hwy::FuncInput in[2] = {0, 3};
      hwy::Result r[2];
      hwy::Params p;
      p.verbose = false;
      p.seconds_per_eval = 1e-6;
      p.max_evals = evals;
      hwy::SetWarnFunc(on_warn);
      const size_t n = hwy::Measure(&body, reinterpret_cast<const uint8_t*>(&g_dur), in, 2, r, p);
      if (n != 0 && n != 2) return fmt("%d results", (int)n);
      if (g_bad) return "wrong input";
      return "";
    });
  }
}
#endif

int main(int argc, char** argv) { return ex::main(argc, argv); }
