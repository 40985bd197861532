// Thread pool harness: see DESIGN.md, C01-C03. Drives the public API only.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include <vector>
#include "mc.h"
#include "hwy/contrib/thread_pool/thread_pool.h"

#define NOINST __attribute__((no_sanitize("thread"), noinline))

namespace {
struct Book {  // bookkeeping invisible to the explorer (single OS thread)
  int count[512];
  int busy[80];
  int nworkers;
  int active;
  uint64_t begin;
  int ntasks;
  bool open;
};
Book bk;

NOINST void RunStart(uint64_t begin, int n, size_t workers) {
  memset(&bk, 0, sizeof bk);
  bk.begin = begin;
  bk.ntasks = n;
  bk.nworkers = (int)workers;
  bk.open = true;
}
NOINST void TaskStart(uint64_t task, size_t worker) {
  mc::check(bk.open, "task %lu invoked outside its parallel-for", (long)task);
  mc::check(task - bk.begin < (uint64_t)bk.ntasks, "task %lu outside [%lu, +%d)", (long)task, (long)bk.begin, bk.ntasks);
  mc::check(worker < (size_t)bk.nworkers, "worker %lu >= %d", (long)worker, bk.nworkers);
  if (task - bk.begin < 512) {
    int& c = bk.count[task - bk.begin];
    mc::check(c == 0, "task %lu executed twice", (long)task);
    c++;
    mc::observe(((task - bk.begin) << 8) | worker);
  }
  if (worker < 80) {
    mc::check(bk.busy[worker] == 0, "worker index %lu used by two concurrent tasks", (long)worker);
    bk.busy[worker] = 1;
  }
  bk.active++;
}
NOINST void TaskEnd(uint64_t task, size_t worker) {
  mc::check(bk.open, "task %lu still running after its parallel-for returned", (long)task);
  if (worker < 80) bk.busy[worker] = 0;
  bk.active--;
}
NOINST void RunEnd() {
  mc::check(bk.active == 0, "%d tasks still running when parallel-for returned", bk.active);
  for (int i = 0; i < bk.ntasks; i++) mc::check(bk.count[i] == 1, "task %d executed %d times", i, bk.count[i]);
  bk.open = false;
}

struct Data {  // ordinary data shared between caller and tasks
  int in[512];
  int out[512];
  int tls[80];
  int prev[512];
};

// One parallel-for with all bookkeeping. `yield`: an extra scheduling point
// inside each task.
void DoRun(hwy::ThreadPool& pool, Data& d, uint64_t begin, int n, bool yield) {
  for (int i = 0; i < n && i < 512; i++) {
    d.prev[i] = d.out[i];
    d.in[i]++;
  }
  RunStart(begin, n, pool.NumWorkers());
  pool.Run(begin, begin + (uint64_t)n, [&](uint64_t task, size_t worker) {
    TaskStart(task, worker);
    const size_t i = (size_t)(task - begin);
    if (i < 512) d.out[i] = d.in[i] + 1;
    if (worker < 80) d.tls[worker]++;
    if (yield) mc::yield_point();
    TaskEnd(task, worker);
  });
  RunEnd();
  int total = 0;
  for (int i = 0; i < n && i < 512; i++) mc::check(d.out[i] == d.in[i] + 1, "result of task %d not visible to the caller", i);
  for (size_t w = 0; w < pool.NumWorkers() && w < 80; w++) total += d.tls[w];
  (void)total;
}


struct Spec {
  char name[200];
  int threads, env, flags, P, D;
  double cap;
  char hist[400];
};
Spec* specs;  // allocated: static data is restored before every execution
int nspecs;

// Scenario list, one per line: name threads env flags P D cap history
//   env: 0 pause only, 1 AMD monitorx, 2 Intel umonitor
//   flags: 1 scheduling point inside each task, 2 futex/monitor faults
//   P: bound + 100 * default-schedule policy + 1000 * delay-bounded; -1 unbounded
//   history: C construct, D destroy, S/B SetWaitMode(kSpin/kBlock),
//     r<n> run n tasks from 5, R<n> same near 2^64, '[' start exploring,
//     ']' stop exploring, <op>*<k> repeats. Construction is implied at the start
//     and destruction at the end.
void Body(const int* a) {
  const Spec& s = specs[a[0]];
  mc::Env& e = mc::env();
  e.amd = e.monitorx = s.env == 1;
  e.waitpkg = s.env == 2;
  e.futex_faults = e.monitor_faults = (s.flags & 2) != 0;
  static Data d;
  hwy::ThreadPool* pool = nullptr;
  const bool yield = (s.flags & 1) != 0;
  for (const char* p = s.hist; *p;) {
    const char op = *p++;
    int n = 0, rep = 1;
    while (*p >= '0' && *p <= '9') n = n * 10 + *p++ - '0';
    if (*p == '*') {
      rep = 0;
      p++;
      while (*p >= '0' && *p <= '9') rep = rep * 10 + *p++ - '0';
    }
    if (!pool && op != '[' && op != ']') pool = new hwy::ThreadPool((size_t)s.threads);
    for (int k = 0; k < rep; k++) switch (op) {
        case '[': mc::window_begin(); break;
        case ']': mc::window_end(); break;
        case 'C': break;
        case 'D': delete pool; pool = nullptr; break;
        case 'S': pool->SetWaitMode(hwy::PoolWaitMode::kSpin); break;
        case 'B': pool->SetWaitMode(hwy::PoolWaitMode::kBlock); break;
        case 'r': DoRun(*pool, d, 5, n, yield); break;
        case 'R': DoRun(*pool, d, ~0ull - (uint64_t)n - 1, n, yield); break;
        default: mc::fail("bad history %s", s.hist);
      }
  }
  delete pool;
  mc::window_end();
}
}  // namespace

int main(int argc, char** argv) {
  const char* list = nullptr;
  int kinds = 63;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--list")) list = argv[++i];
    if (!strcmp(argv[i], "--kinds")) kinds = atoi(argv[++i]);
  }
  FILE* f = list ? fopen(list, "r") : nullptr;
  if (!f) return 3;
  specs = (Spec*)calloc(2000, sizeof(Spec));
  mc::Scenario* v = (mc::Scenario*)calloc(2000, sizeof(mc::Scenario));
  for (; nspecs < 2000; nspecs++) {
    Spec& s = specs[nspecs];
    if (fscanf(f, "%199s %d %d %d %d %d %lf %399s", s.name, &s.threads, &s.env, &s.flags, &s.P, &s.D, &s.cap, s.hist) != 8) break;
    mc::Scenario& c = v[nspecs];
    c.name = s.name;
    c.body = Body;
    c.args[0] = nspecs;
    c.delay = s.P >= 1000;
    c.policy = s.P < 0 ? 0 : s.P % 1000 / 100;
    c.preempt = s.P < 0 ? -1 : s.P % 100;
    c.data = s.D;
    c.cap_s = s.cap;
  }
  fclose(f);
  return mc::run(argc, argv, v, nspecs, kinds);
}
