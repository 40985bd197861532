// Controlled-scheduler model checker for C++ code instrumented by
// -fsanitize=thread (compile-time part only; see mc_rt.cc for the runtime).
#ifndef VERIF_MC_H_
#define VERIF_MC_H_
#include <stdint.h>
#include <stddef.h>

namespace mc {

// Environment of one execution; set by the scenario before/while running.
struct Env {
  // CPUID answers.
  bool amd = false;        // vendor string
  bool monitorx = false;   // 0x80000001 ecx bit 29
  bool waitpkg = false;    // leaf 7 ecx bit 5
  uint64_t tsc_step = 1000;  // rdtsc advance per read
  // If set, called for every CPUID/XGETBV instead of the default model.
  void (*cpuid)(uint32_t leaf, uint32_t sub, uint32_t* abcd) = nullptr;
  uint64_t (*xgetbv)() = nullptr;
  bool futex_faults = false;    // EINTR / spurious returns as data deviations
  bool monitor_faults = false;  // spurious umwait/mwaitx returns
};
Env& env();

struct Scenario {
  const char* name;
  void (*body)(const int* args);
  int args[8];
  int preempt;     // preemption bound; < 0: unbounded (visited states pruned)
  int data;        // bound on stale reads / spurious wakeups
  double cap_s;    // time cap (a capped run is reported as incomplete)
  int policy;      // default schedule: 0 run on, then lowest id; 1 highest id;
                   // 2 round robin on blocking; 3 round robin at every step
  int delay;       // 1: every departure from the default schedule costs one
                   // preemption (delay bounding), for many threads
};

// Only between these are alternative schedules explored.
void window_begin();
void window_end();
// Reports a violation of the property being checked and ends the execution.
__attribute__((format(printf, 1, 2), noreturn)) void fail(const char* fmt, ...);
// Same, but only if this check reports assertion failures; otherwise returns.
__attribute__((format(printf, 2, 3))) void check(bool ok, const char* fmt, ...);
// Adds to the observable outcome of this execution (for distinct-outcome counts).
void observe(uint64_t v);
int self();  // current thread id
uint64_t now();  // logical step counter
void yield_point();  // extra scheduling point (e.g. inside a task)
// Restricts which fail classes are reported (property-specific): see kinds.
enum Kind { kAssert = 1, kDeadlock = 2, kRace = 4, kCrash = 8, kLeak = 16, kUaf = 32 };

// Entry point: runs all scenarios, prints JSON summary. `kinds`: which kinds
// of violation this check reports (others are still noted in the summary).
int run(int argc, char** argv, Scenario* s, int n, int kinds);

}  // namespace mc
#endif
