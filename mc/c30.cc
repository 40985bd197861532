// C30: handler installation and warnings from several threads under all
// interleavings; each execution's history must be linearizable.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mc.h"
#include "hwy/base.h"
#define NOINST __attribute__((no_sanitize("thread"), noinline))
namespace {
struct Op { int kind, arg, got; uint64_t b, e; int thread; };  // kind 0 set, 1 warn
struct G { Op ops[16]; int n; int seen[8]; int line[8]; char msg[8][40]; int ext; };
G g;
template <int I> NOINST void H(const char* f, int line, const char* m) {
  const int t = mc::self();
  g.seen[t] = g.seen[t] * 10 + I;
  g.line[t] = line;
  snprintf(g.msg[t], sizeof g.msg[t], "%s%s", m, strcmp(f, "file") ? "!" : "");
}
const hwy::WarnFunc kH[6] = {&H<0>, &H<1>, &H<2>, &H<3>, &H<4>, &H<5>};
NOINST int idx(hwy::WarnFunc f) { for (int i = 0; i < 6; i++) if (kH[i] == f) return i; return -1; }
NOINST int begin_op(int kind, int arg) {
  g.ops[g.n] = Op{kind, arg, -1, mc::now(), ~0ull, mc::self()};
  g.seen[mc::self()] = 0;
  return g.n++;
}
NOINST void end_op(int i, int got) {
  g.ops[i].got = got;
  g.ops[i].e = mc::now();
  mc::observe(got * 16 + i);
}
NOINST int warned_handler(int line) {
  const int t = mc::self();
  char want[40];
  snprintf(want, sizeof want, "msg %d", line);
  mc::check(g.line[t] == line && !strcmp(g.msg[t], want), "handler got another warning's text or line: %d vs %d", g.line[t], line);
  mc::check(g.seen[t] >= 1 && g.seen[t] <= 5, "handlers called for one warning: %d", g.seen[t]);
  return g.seen[t];
}
NOINST bool lin(int cur, unsigned done) {
  if (done == (1u << g.n) - 1) return true;
  for (int i = 0; i < g.n; i++) {
    if (done >> i & 1) continue;
    bool ok = true;
    for (int k = 0; k < g.n; k++) if (!(done >> k & 1) && k != i && g.ops[k].e < g.ops[i].b) ok = false;
    if (!ok || g.ops[i].got != cur) continue;
    if (lin(g.ops[i].kind == 0 ? g.ops[i].arg : cur, done | 1u << i)) return true;
  }
  return false;
}
struct Prog { int kinds[3]; int args[3]; int n; };
Prog progs[3];
void* thread(void* p) {
  const Prog* pr = (const Prog*)p;
  for (int i = 0; i < pr->n; i++) {
    const int o = begin_op(pr->kinds[i], pr->args[i]);
    if (pr->kinds[i] == 0) {
      end_op(o, idx(hwy::SetWarnFunc(kH[pr->args[i]])));
    } else {
      const int line = 100 * mc::self() + i;
      hwy::Warn("file", line, "msg %d", line);
      end_op(o, warned_handler(line));
    }
  }
  return nullptr;
}
void body(const int* a) {
  memset(&g, 0, sizeof g);
  const int nt = a[0];
  int next = 2;
  for (int t = 0; t < nt; t++) {
    int c = a[1 + t];
    progs[t].n = a[4];
    for (int i = 0; i < progs[t].n; i++) {
      progs[t].kinds[i] = c & 1;
      c >>= 1;
      progs[t].args[i] = progs[t].kinds[i] ? 0 : next < 6 ? next++ : 2;
    }
  }
  hwy::SetWarnFunc(kH[1]);
  pthread_t th[3];
  mc::window_begin();
  for (int t = 0; t < nt; t++) pthread_create(&th[t], nullptr, thread, &progs[t]);
  for (int t = 0; t < nt; t++) pthread_join(th[t], nullptr);
  mc::window_end();
  const int o = begin_op(0, 1);
  end_op(o, idx(hwy::SetWarnFunc(nullptr)));
  mc::check(lin(1, 0), "history is not linearizable: a handler was lost, repeated or a removed one called");
}
}  // namespace
int main(int argc, char** argv) {
  bool thorough = false;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) thorough = true;
  mc::Scenario* v = (mc::Scenario*)calloc(2000, sizeof(mc::Scenario));
  int n = 0;
  for (int nt = 2; nt <= 3; nt++)
    for (int len = 1; len <= (nt == 2 ? 3 : thorough ? 2 : 1); len++)
      for (int c0 = 0; c0 < 1 << len; c0++)
        for (int c1 = c0; c1 < 1 << len; c1++)
          for (int c2 = c1; c2 < (nt == 3 ? 1 << len : c1 + 1); c2++) {
            // handlers 2..5 are installed at most once each
            int sets = 2 * len;
            (void)sets;
            int z = 0;
            for (int i = 0; i < len; i++) z += !(c0 >> i & 1) + !(c1 >> i & 1) + (nt == 3 && !(c2 >> i & 1));
            if (z > 4) continue;
            mc::Scenario& s = v[n++];
            char nm[64];
            snprintf(nm, sizeof nm, "t%d_len%d_%x_%x_%x", nt, len, c0, c1, c2);
            s.name = strdup(nm);
            s.body = body;
            int a[8] = {nt, c0, c1, c2, len, 0, 0, 0};
            memcpy(s.args, a, sizeof a);
            s.preempt = -1;
            s.data = 2;
            s.cap_s = 60;
          }
  return mc::run(argc, argv, v, n, mc::kAssert | mc::kDeadlock | mc::kCrash | mc::kRace);
}
