// C34: PerfCounters on a model of the kernel's perf events. Every history is
// run in a forked child, because the counters are a per-process singleton.
#include <errno.h>
#include <fcntl.h>
#include <linux/perf_event.h>
#include <math.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "ex.h"
#include "hwy/base.h"
#include "hwy/bit_set.h"
#include "hwy/perf_counters.h"
#include "hwy/timer.h"

namespace {
typedef hwy::platform::PerfCounters PC;
// ---------------------------------------------------------------- configuration
struct Sys {
  unsigned missing = 0;      // counters (bits as PC::Counter) which the system does not have
  unsigned cap = 11;         // hardware events per group
  unsigned cap_l3 = 2;       // last-level cache events per group
  unsigned share = 0;        // multiplexing: see running()
  bool present = true;       // perf_event_paranoid exists
  unsigned deny = 0;         // this many calls of perf_event_open fail with EACCES, ~0 = all
  int kernel = 0, cpu = 0;   // index of the names below
  // n-th call (from 0) of open/read is interrupted `times` times
  int eintr_open = -1, eintr_read = -1, times = 1;
  int short_read = -1, short_len = 8;
  int fail_read = -1;        // n-th read: error
  bool eof = false;          // ... or end of file
  int fd0 = 100;             // first descriptor
};
Sys S;
const char* kRelease[] = {"6.9.0", "6.8.12-generic", "6.10.2", "5.15.0-91-generic", "7.0.1", "6.1", "4.19.0-amd64", "10.2.3", "garbage", "6", "6.9-rc1", "6.11.0"};
const bool kOld[] = {false, true, false, true, false, true, true, false, false, false, false, false};
const char* kCpu[] = {"Intel(R) Xeon(R) Platinum 8481C", "AMD EPYC 9B14", "AMD Ryzen 9 7950X", "AMD EPYC 7B12", "An AMD EPYC", "AMD EPYC"};
const bool kEpyc[] = {false, true, false, true, false, true};
const char* g_sysname = "Linux";

// ---------------------------------------------------------------- kernel
struct Event {
  int c;            // PC::Counter
  bool cycles;      // CPU_CYCLES instead of REF_CPU_CYCLES
  int leader;       // index of the leading event
  bool on;
  uint64_t count;
  uint64_t enabled, running;
  uint64_t format;
};
std::vector<Event> E;
int n_open, n_read;
std::string g_err;  // misuse of the system's interface
#define MISUSE(...) do { char b[200]; snprintf(b, sizeof b, __VA_ARGS__); if (g_err.empty()) g_err = b; } while (0)

int which(const perf_event_attr& a, bool* cycles) {
  *cycles = false;
  if (a.type == PERF_TYPE_HARDWARE) {
    switch (a.config) {
      case PERF_COUNT_HW_CPU_CYCLES: *cycles = true; return PC::kRefCycles;
      case PERF_COUNT_HW_REF_CPU_CYCLES: return PC::kRefCycles;
      case PERF_COUNT_HW_INSTRUCTIONS: return PC::kInstructions;
      case PERF_COUNT_HW_BRANCH_INSTRUCTIONS: return PC::kBranches;
      case PERF_COUNT_HW_BRANCH_MISSES: return PC::kBranchMispredicts;
      case PERF_COUNT_HW_BUS_CYCLES: return PC::kBusCycles;
      case PERF_COUNT_HW_CACHE_REFERENCES: return PC::kCacheRefs;
      case PERF_COUNT_HW_CACHE_MISSES: return PC::kCacheMisses;
    }
  } else if (a.type == PERF_TYPE_SOFTWARE) {
    if (a.config == PERF_COUNT_SW_PAGE_FAULTS) return PC::kPageFaults;
    if (a.config == PERF_COUNT_SW_CPU_MIGRATIONS) return PC::kMigrations;
  } else if (a.type == PERF_TYPE_HW_CACHE) {
    if (a.config == (PERF_COUNT_HW_CACHE_LL | PERF_COUNT_HW_CACHE_OP_READ << 8 | PERF_COUNT_HW_CACHE_RESULT_ACCESS << 16)) return PC::kL3Loads;
    if (a.config == (PERF_COUNT_HW_CACHE_LL | PERF_COUNT_HW_CACHE_OP_WRITE << 8 | PERF_COUNT_HW_CACHE_RESULT_ACCESS << 16)) return PC::kL3Stores;
  }
  return -1;
}
bool soft(int c) { return c == PC::kPageFaults || c == PC::kMigrations; }
bool l3(int c) { return c == PC::kL3Loads || c == PC::kL3Stores; }
long fail(int e) { errno = e; return -1; }
long perf_open(const perf_event_attr& a, int pid, int cpu, int leader, unsigned long flags) {
  const int n = n_open++;
  if (S.eintr_open >= 0 && n >= S.eintr_open && n < S.eintr_open + S.times) return fail(EINTR);
  if (S.deny == ~0u || (unsigned)n < S.deny) return fail(EACCES);
  if (a.size != sizeof(a) && a.size != PERF_ATTR_SIZE_VER0) return fail(E2BIG);
  if (pid != 0 || cpu != -1) return fail(EACCES);  // another process or a whole CPU
  if (!a.exclude_kernel) return fail(EACCES);      // paranoid
  if (a.inherit && (a.read_format & PERF_FORMAT_GROUP)) return fail(EINVAL);
  bool cyc;
  const int c = which(a, &cyc);
  if (c < 0) { MISUSE("unexpected event type %d config %llx", (int)a.type, (unsigned long long)a.config); return fail(ENOENT); }
  if (S.missing >> c & 1) return fail(ENOENT);
  int li = (int)E.size();
  if (leader != -1) {
    li = leader - S.fd0;
    if (li < 0 || li >= (int)E.size()) return fail(EBADF);
    if (E[li].leader != li) return fail(EINVAL);
    unsigned hw = !soft(c), n3 = l3(c);
    for (const Event& e : E) if (e.leader == li) hw += !soft(e.c), n3 += l3(e.c);
    if (hw > S.cap || n3 > S.cap_l3) return fail(c % 2 ? EINVAL : ENOSPC);
  }
  for (const Event& e : E) if (e.c == c) MISUSE("counter %d opened twice", c);
  E.push_back({c, cyc, li, !a.disabled, 0, 0, 0, a.read_format});
  return S.fd0 + (long)E.size() - 1;
}
long vf_syscall(long nr, ...) {
  va_list a;
  va_start(a, nr);
  long r = fail(ENOSYS);
  if (nr == __NR_perf_event_open) {
    const perf_event_attr* at = va_arg(a, const perf_event_attr*);
    const int pid = va_arg(a, int), cpu = va_arg(a, int), leader = va_arg(a, int);
    const int flags = va_arg(a, int);
    r = perf_open(*at, pid, cpu, leader, flags);
  } else {
    MISUSE("unexpected system call %ld", nr);
  }
  va_end(a);
  return r;
}
ssize_t vf_read(int fd, void* to, size_t size) {
  static uint64_t rec[32];
  static size_t pos, len;
  static int cur = -1;
  const int n = n_read++;
  if (S.eintr_read >= 0 && n >= S.eintr_read && n < S.eintr_read + S.times) return fail(EINTR);
  if (n == S.fail_read) { cur = -1; if (S.eof) { errno = 0; return 0; } return fail(EIO); }
  const int i = fd - S.fd0;
  if (i < 0 || i >= (int)E.size()) return fail(EBADF);
  if (cur != i) {  // a new record
    const uint64_t f = E[i].format;
    const bool group = f & PERF_FORMAT_GROUP;
    if (group && E[i].leader != i) MISUSE("read of a group through a member");
    len = 0;
    if (group) {
      uint64_t m = 0;
      for (const Event& e : E) m += e.leader == i;
      rec[len++] = m;
    } else {
      rec[len++] = E[i].count;
    }
    const Event& L = E[E[i].leader];
    if (f & PERF_FORMAT_TOTAL_TIME_ENABLED) rec[len++] = L.enabled;
    if (f & PERF_FORMAT_TOTAL_TIME_RUNNING) rec[len++] = L.running;
    if (group) for (const Event& e : E) if (e.leader == i) rec[len++] = e.count;
    len *= 8;
    pos = 0;
    if (size < len) return fail(ENOSPC);
  }
  size_t m = std::min(size, len - pos);
  if (n == S.short_read) m = std::min<size_t>(m, S.short_len);
  memcpy(to, (const char*)rec + pos, m);
  pos += m;
  cur = pos == len ? -1 : i;
  return (ssize_t)m;
}
int vf_ioctl(int fd, unsigned long req, ...) {
  const int i = fd - S.fd0;
  if (i < 0 || i >= (int)E.size()) return (int)fail(EBADF);
  va_list a;
  va_start(a, req);
  const bool group = va_arg(a, int) & PERF_IOC_FLAG_GROUP;
  va_end(a);
  for (size_t k = 0; k < E.size(); k++) if ((int)k == i || (group && E[k].leader == E[i].leader)) {
    if (req == PERF_EVENT_IOC_RESET) E[k].count = 0;
    else if (req == PERF_EVENT_IOC_ENABLE) E[k].on = true;
    else if (req == PERF_EVENT_IOC_DISABLE) E[k].on = false;
    else return (int)fail(ENOTTY);
  }
  return 0;
}
int vf_prctl(int op, ...) {
  if (op != PR_TASK_PERF_EVENTS_ENABLE && op != PR_TASK_PERF_EVENTS_DISABLE) return (int)fail(EINVAL);
  for (Event& e : E) e.on = op == PR_TASK_PERF_EVENTS_ENABLE;
  return 0;
}
int vf_stat(const char* p, struct stat* s) {
  if (!S.present || strcmp(p, "/proc/sys/kernel/perf_event_paranoid")) return (int)fail(ENOENT);
  memset(s, 0, sizeof *s);
  return 0;
}
int vf_uname(utsname* u) {
  memset(u, 0, sizeof *u);
  snprintf(u->sysname, sizeof u->sysname, "%s", g_sysname);
  snprintf(u->release, sizeof u->release, "%s", kRelease[S.kernel]);
  return 0;
}
// How much of `t` the n-th group runs.
uint64_t running(unsigned n, uint64_t t) {
  switch (S.share) {
    case 0: return t;
    case 1: return t / (n + 1);
    case 2: return n == 1 ? 0 : t;          // the second group is never scheduled
    case 3: return n == 0 ? t / 3 : t / 2;
    default: return n == 0 ? 0 : t;         // nor is the first
  }
}
void work(uint64_t t) {
  unsigned g = 0;
  for (size_t i = 0; i < E.size(); i++) {
    if (E[i].leader != (int)i) continue;
    const uint64_t r = running(g++, t);
    if (E[i].on) E[i].enabled += t, E[i].running += r;
    for (Event& e : E) if (e.leader == (int)i && e.on && E[i].on) {
      const bool zero = e.c == PC::kRefCycles && !e.cycles && kOld[S.kernel] && kEpyc[S.cpu];  // as such kernels do
      e.count += zero ? 0 : r * (uint64_t)(e.cycles ? 100 : e.c + 1);
    }
  }
}
}  // namespace
extern "C" __attribute__((target("general-regs-only"))) void st_cpuid(uint32_t leaf, uint32_t, uint32_t* o) {
  o[0] = o[1] = o[2] = o[3] = 0;
  if (leaf == 0x80000000u) o[0] = 0x80000008u;
  if (leaf >= 0x80000002u && leaf <= 0x80000004u) {
    char b[48];
    for (int i = 0; i < 48; i++) b[i] = 0;
    const char* s = kCpu[S.cpu];
    for (int i = 0; i < 47 && s[i]; i++) b[i] = s[i];
    __builtin_memcpy(o, b + (leaf - 0x80000002u) * 16, 16);
  }
}
extern "C" __attribute__((target("general-regs-only"))) uint64_t st_xgetbv(uint32_t) { return 0; }
extern "C" __attribute__((target("general-regs-only"), noinline)) uint64_t st_clock(int) { static uint64_t c; return c += 10; }

#define syscall(...) vf_syscall(__VA_ARGS__)
#define read(...) vf_read(__VA_ARGS__)
#define ioctl(...) vf_ioctl(__VA_ARGS__)
#define prctl(...) vf_prctl(__VA_ARGS__)
#define stat(...) vf_stat(__VA_ARGS__)
#define uname(...) vf_uname(__VA_ARGS__)
#include "hwy/perf_counters.cc"
#undef syscall
#undef read
#undef ioctl
#undef prctl
#undef stat
#undef uname

namespace {
constexpr int kAll = 11;
int g_fd = -1;
void say(const char* f, ...) {
  char b[400];
  va_list a;
  va_start(a, f);
  const int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (write(g_fd, b, n) < 0) {}
  _exit(1);
}
// What has to be seen, given the system's state.
bool g_inited;
void check_read(bool faulty) {
  const PC p;
  PC q = p;
  bool any = false;
  double maxx = 1.0;
  bool blocked = false;
  for (const Event& e : E) if (E[e.leader].running == 0) blocked = true;
  std::string seen;
  for (int c = 0; c < kAll; c++) {
    const PC::Counter k = (PC::Counter)c;
    const Event* e = nullptr;
    for (const Event& x : E) if (x.c == c) e = &x;
    const bool v = p.IsValid(k);
    any |= v;
    if (!v) {
      if (p.Get(k) != 0.0) say("counter %d is invalid but its value is %g", c, p.Get(k));
      if (e && !blocked && !faulty && g_inited) say("counter %d is invalid", c);
      continue;
    }
    if (!e) say("counter %d, which does not exist, is valid", c);
    const Event& L = E[e->leader];
    if (L.running == 0) say("counter %d is valid, but was never scheduled", c);
    const double x = (double)L.enabled / (double)L.running, want = (double)e->count * x;
    maxx = std::max(maxx, x);
    if (!(fabs(p.Get(k) - want) <= 1E-10 * want)) say("counter %d is %.17g instead of %.17g (extrapolation %g)", c, p.Get(k), want, x);
  }
  if (p.AnyValid() != any) say("AnyValid is %d", p.AnyValid());
  if (any && !blocked && !(fabs(p.MaxExtrapolate() - maxx) <= 1E-12 * maxx)) say("MaxExtrapolate is %.17g instead of %.17g", p.MaxExtrapolate(), maxx);
  int prev = -1;
  unsigned visited = 0;
  q.Foreach([&](double val, PC::Counter c) {
    if ((int)c <= prev || (int)c >= kAll) say("Foreach visits %d after %d", (int)c, prev);
    prev = c;
    visited |= 1u << c;
    if (val != p.Get(c)) say("Foreach sees %g for counter %d instead of %g", val, (int)c, p.Get(c));
  });
  for (int c = 0; c < kAll; c++) if ((visited >> c & 1) != p.IsValid((PC::Counter)c)) say("Foreach: counter %d", c);
}
unsigned have() { unsigned r = 0; for (const Event& e : E) r |= 1u << e.c; return r; }
// 0 Init, 1 StartAll, 2 StopAllAndReset, 3 work, 4 read
void op(int o, bool faulty = false) {
  if (o == 0) {
    const bool can = S.present;
    const unsigned sup = can && S.deny != ~0u && S.deny < 22 ? ~S.missing & ((1u << kAll) - 1) : 0;
    const bool ok = PC::Init();
    const bool first = !g_inited;
    if (ok != (have() != 0)) say("Init returned %d with counters %x", ok, have());
    if (first && have() != sup && S.deny == 0) say("Init opened counters %x of %x", have(), sup);
    if (first && have()) {
      for (const Event& e : E) {
        if (e.on) say("counter %d runs after Init", e.c);
        if (e.count) say("counter %d is not zero after Init", e.c);
      }
      const bool cyc = kOld[S.kernel] && kEpyc[S.cpu];
      for (const Event& e : E) if (e.c == PC::kRefCycles && e.cycles != cyc) say("%s counted on %s, kernel %s", e.cycles ? "cycles" : "reference cycles", kCpu[S.cpu], kRelease[S.kernel]);
    }
    g_inited = ok;
  } else if (o == 1) {
    const bool ok = PC::StartAll();
    if (ok != g_inited) say("StartAll returned %d %s", ok, g_inited ? "with counters" : "without counters");
    if (ok) for (const Event& e : E) if (!e.on) say("counter %d was not started", e.c);
  } else if (o == 2) {
    PC::StopAllAndReset();
    for (const Event& e : E) {
      if (e.on) say("counter %d was not stopped", e.c);
      if (e.count) say("counter %d was not reset", e.c);
    }
  } else if (o == 3) {
    work(1200);
  } else {
    check_read(faulty);
  }
  if (!g_err.empty()) say("%s", g_err.c_str());
}
template <class F>
void child(const F& f) {
  int p[2];
  if (pipe(p)) return;
  fflush(ex::st().out);
  const pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    g_fd = p[1];
    for (int sg : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM}) signal(sg, SIG_DFL);
    alarm(20);
    f();
    _exit(0);
  }
  close(p[1]);
  std::string got;
  char b[1000];
  ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, n);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  ex::add();
  if (!got.empty()) EX_FAIL("%s", got.c_str());
  else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) EX_FAIL("died with status %x", st);
}
#define GROUP(n) void n(); ex::Reg reg_##n(#n, n); void n()

#if PART == 0
// Every set of missing counters and every capacity of groups.
GROUP(systems) {
  const unsigned caps[] = {1, 2, 3, 4, 5, 6, 8, 11};
  for (unsigned miss = 0; miss < 2048; miss++) for (unsigned cap : caps) {
    if (!ex::thorough() && (miss * 7 + cap) % 3 && __builtin_popcount(miss) > 2 && __builtin_popcount(miss) < 9) continue;
    S = Sys();
    S.missing = miss;
    S.cap = cap;
    S.cap_l3 = 1 + (miss + cap) % 2;
    S.share = (miss / 4 + cap) % 4 == 2 ? 1 : (miss / 4 + cap) % 4;
    S.fd0 = miss % 3 == 0 ? 0 : 100;
    ex::at("missing %x capacity %u l3 %u multiplexing %u", miss, cap, S.cap_l3, S.share);
    child([] { for (int o : {0, 4, 1, 3, 4, 3, 4, 2, 4, 1, 3, 4}) op(o); });
    if (ex::many()) return;
  }
}
GROUP(platforms) {
  for (const char* name : {"Linux", "FreeBSD"}) for (int k = 0; k < 12; k++) for (int c = 0; c < 6; c++) for (unsigned miss : {0u, 1u, 2u, 0x7FEu}) {
    g_sysname = name;
    S = Sys();
    S.kernel = k;
    S.cpu = c;
    S.missing = miss;
    ex::at("%s kernel %s cpu %s missing %x", name, kRelease[k], kCpu[c], miss);
    if (strcmp(name, "Linux")) { if (kOld[k] && kEpyc[c]) continue; }
    child([] { for (int o : {0, 1, 3, 4}) op(o); });
  }
  g_sysname = "Linux";
}
#elif PART == 1
// All sequences of operations.
GROUP(histories) {
  Sys conf[6];
  conf[1].cap = 3, conf[1].share = 1, conf[1].fd0 = 0;
  conf[2].missing = 0x2A5, conf[2].cap = 2, conf[2].share = 3;
  conf[3].missing = 0x7FF;
  conf[4].present = false;
  conf[5].cap = 4, conf[5].share = 2;
  const int depth = ex::thorough() ? 6 : 5;
  for (int q = 0; q < 6; q++) {
    int total = 1;
    for (int i = 0; i < depth; i++) total *= 5;
    for (int h = 0; h < total; h++) {
      S = conf[q];
      ex::at("system %d history %d", q, h);
      child([&] { for (int i = 0, x = h; i < depth; i++, x /= 5) op(x % 5); op(4); });
      if (ex::many()) return;
    }
  }
}
#elif PART == 2
// Interruptions and failures of each system call.
GROUP(open_interrupted) {
  for (unsigned cap : {2u, 4u, 11u}) for (int n = 0; n < 26; n++) for (int times : {1, 2, 5}) for (unsigned miss : {0u, 0x41u, 0x7FEu}) {
    S = Sys();
    S.cap = cap;
    S.missing = miss;
    S.eintr_open = n;
    S.times = times;
    ex::at("capacity %u missing %x call %d interrupted %d times", cap, miss, n, times);
    child([] { for (int o : {0, 1, 3, 4}) op(o); });
  }
}
GROUP(open_denied) {
  for (unsigned deny = 0; deny <= 23; deny++) for (unsigned cap : {3u, 11u}) {
    S = Sys();
    S.cap = cap;
    S.deny = deny == 23 ? ~0u : deny;
    ex::at("first %u calls denied, capacity %u", deny, cap);
    child([] {
      for (int o : {0, 1, 3, 4, 2, 4}) op(o);
      // a later call of Init may succeed
      const bool was = g_inited;
      S.deny = 0;
      op(0);
      if (!g_inited) say("Init does not try again");
      if (!was && have() != 0x7FF) say("the second Init opened %x", have());
      for (int o : {1, 3, 4}) op(o);
    });
  }
  S = Sys();
  S.present = false;
  ex::at("not supported at first");
  child([] {
    op(0);
    op(4);
    S.present = true;
    for (int o : {0, 1, 3, 4}) op(o);
    if (have() != 0x7FF) say("the second Init opened %x", have());
  });
}
GROUP(read_interrupted) {
  for (unsigned cap : {1u, 3u, 11u}) for (int n = 0; n < 24; n++) for (int times : {1, 2, 5}) {
    S = Sys();
    S.cap = cap;
    S.share = 1;
    S.eintr_read = n;
    S.times = times;
    ex::at("capacity %u read %d interrupted %d times", cap, n, times);
    child([] { for (int o : {0, 1, 3, 4, 3, 4}) op(o); });
  }
}
GROUP(read_short) {
  for (unsigned cap : {1u, 3u, 11u}) for (int n = 0; n < 12; n++) for (int len = 1; len < 112; len++) for (int e = 0; e < 3; e++) {
    if (cap != 11 && len > 64) break;
    S = Sys();
    S.cap = cap;
    S.share = 1;
    S.short_read = n;
    S.short_len = len;
    if (e) S.eintr_read = n + 1, S.times = e;
    ex::at("capacity %u read %d returns %d bytes, then interrupted %d times", cap, n, len, e);
    child([] { for (int o : {0, 1, 3, 4, 3, 4}) op(o); });
    if (ex::many()) return;
  }
}
GROUP(read_failed) {
  for (unsigned cap : {1u, 3u, 11u}) for (int n = 0; n < 24; n++) for (int eof = 0; eof < 2; eof++) {
    S = Sys();
    S.cap = cap;
    S.share = 1;
    S.fail_read = n;
    S.eof = eof;
    ex::at("capacity %u read %d %s", cap, n, eof ? "is at the end" : "fails");
    child([] {
      for (int o : {0, 1, 3}) op(o);
      for (int i = 0; i < 5; i++) {
        const int before = n_read;
        op(4, true);
        if (!(before <= S.fail_read && S.fail_read < n_read)) op(4, n_read <= S.fail_read || S.fail_read >= n_read);
        op(3);
      }
      S.fail_read = -1;
      op(4);  // recovers
    });
  }
}
#endif
}  // namespace
int main(int argc, char** argv) {
  hwy::SetWarnFunc([](const char*, int, const char*) {});
  return ex::main(argc, argv);
}
