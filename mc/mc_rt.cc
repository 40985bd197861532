// Runtime of the model checker: see mc.h and ../DESIGN.md.
// Compiled WITHOUT instrumentation. All threads of the program under test are
// fibers of one OS thread.
#include "mc.h"

#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifndef MC_MAXT
#define MC_MAXT 8
#endif

typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;

extern "C" void mc_swap(void** save, void* load);
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace {

static inline u64 mix(u64 a, u64 b) {
  u64 x = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
  x ^= x >> 32;
  x *= 0xD6E8FEB86659FD93ull;
  x ^= x >> 32;
  x *= 0xD6E8FEB86659FD93ull;
  x ^= x >> 32;
  return x;
}

struct VC {
  u32 c[MC_MAXT];
};
static inline void vc_join(VC& a, const VC& b) {
  for (int i = 0; i < MC_MAXT; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

enum Status : u8 { FREE, READY, SPIN, B_FUTEX, B_JOIN, B_MWAIT, B_GUARD, B_MUTEX, DONE };

struct Fiber {
  void* rsp;
  Status st;
  u64 h;  // observation history
  VC vc, acq_pending, rel_fence;
  bool has_rel_fence;
  u64 wait_addr;
  int wait_tid;
  int err;  // saved errno
  int futex_ret;
  bool detached, joined;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  // spin detection: signature of reads since the last pause / writes flag
  u64 iter_sig, prev_iter_sig;
  u64 pause_pc, prev_pause_pc;
  bool iter_wrote, prev_iter_wrote;
  u64 iter_addr[8];
  int iter_n;
  u64 iter_first_h;    // hash before the first read of the current iteration
  u64 loop_h0;         // hash at the start of the first iteration of this loop
  u64 iter_asig, prev_iter_asig;  // addresses read only
  u64 iter_ver;  // version (global write counter) at first read of iteration
  bool iter_stale;
  // repeated identical load detection
  u64 last_ld_pc, last_ld_sid;
  int last_ld_rep;
  // monitor
  u64 mon_line;
  bool mon_armed, mon_hit;
};

struct Store {
  u64 val;
  u64 sid;  // identity hash
  u32 clk;
  u8 tid;
  bool has_rel;
  VC rel;
  int prev;  // index of the previous store in modification order
  u32 idx;   // position in modification order
};
struct Rd {
  u32 clk, idx;
  int prev;
};
struct Loc {
  u64 addr;
  u32 stamp;
  u8 size;
  int last;  // Store index
  u64 chain;
  u32 seen[MC_MAXT];
  int reads[MC_MAXT];  // Rd index
};

struct Cell {
  u64 key;
  u32 stamp;
  u8 wt[8];
  u32 wc[8];
  u8 watom;  // bytes last written atomically
  u8 rm[MC_MAXT];   // plain read byte masks
  u8 ram[MC_MAXT];  // atomic read byte masks
  u32 rc[MC_MAXT];
  u32 rac[MC_MAXT];
  bool freed;
};

struct Choice {
  u8 c, n;
  u8 pc, dc;  // cost of alternatives
  u8 kind;    // 0 schedule, 1 stale read, 2 futex fault, 3 monitor fault, 4 wake
};

struct Mtx { u64 addr; int owner; };

const u64 ARENA = 0x100000000000ull;
const size_t ARENA_SZ = 64u << 20;
const u64 STACKS = 0x200000000000ull;
const size_t STACK_SZ = 128 << 10;
const int MAXCHO = 1 << 16;
const u32 NCELL = 1u << 17;
const u32 NLOC = 1u << 12;
const int NSTORE = 1 << 17;
const int NRD = 1 << 17;

struct Eng {
  // per execution
  bool in_exec;
  bool window;
  int cur;
  int nfib;
  Fiber f[MC_MAXT];
  size_t bump;
  u32 stamp;
  u64 writes;  // global atomic write counter
  u64 progress, progress_at_release;
  bool released_once;
  u64 locsum;
  u64 steps;
  u64 logical;
  u64 observed;
  u64 tsc;
  int nstore, nrd;
  VC sc;
  int nmtx;
  Mtx mtx[32];
  int nguard;
  struct { u64 addr; int owner; bool done; } guard[64];
  int ncell_used;
  int nfreed;
  struct { u64 lo, hi; } freed[256];
  // choices
  int ncho, prefixlen;
  Choice cho[MAXCHO];
  u8 prefix[MAXCHO];
  int pcost, dcost;  // used so far
  // result
  int result;  // 0 running, 1 complete, 2 pruned, 3 violation, 4 divergence
  int vkind;
  char msg[512];
  bool tracing;
  // host
  void* host_rsp;
  // scenario bounds
  int P, D;
  bool forked_child;
  // stats
  u64 nexec, npruned, nstates, ntrans, nsteps, ncomplete;
  u64 maxcho;
  bool tablefull;
  bool racecheck;
  int kinds;
  u64 vis_used, nouts;
  const mc::Scenario* sc_cur;
  int pcs[MAXCHO + 1], dcs[MAXCHO + 1];
  u8 pre[MAXCHO];
};
Eng* E;
mc::Env g_env_storage;
mc::Env* ENVP = &g_env_storage;
Cell* cells;
Loc* locs;
Store* stores;
Rd* rds;

// visited table: state hash -> remaining budgets
struct Vis {
  u64 h;
  u8 p, d;
  u8 used;
};
Vis* vis;
u64 VISN = 0;
u64* outs;
const u64 OUTN = 1 << 16;

sigjmp_buf crash_jb;
char* g_data_lo;
char* g_data_hi;
char* g_data_copy;
FILE* g_trace;
u64 g_watch_lo, g_watch_hi;

extern "C" char __data_start, _end;

void host_switch() __attribute__((noreturn));
void host_switch() {
  void* dummy;
  E->in_exec = false;
  mc_swap(&dummy, E->host_rsp);
  __builtin_unreachable();
}

void violation(int kind, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
void violation(int kind, const char* fmt, ...) {
  E->in_exec = false;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(E->msg, sizeof E->msg, fmt, ap);
  va_end(ap);
  E->vkind = kind;
  E->result = 3;
  host_switch();
}

void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void tr(const char* fmt, ...) {
  if (!E->tracing || !g_trace) return;
  bool s = E->in_exec;
  E->in_exec = false;
  fprintf(g_trace, "T%d ", E->cur);
  va_list ap;
  va_start(ap, fmt);
  vfprintf(g_trace, fmt, ap);
  va_end(ap);
  fputc('\n', g_trace);
  E->in_exec = s;
}

// ---------------------------------------------------------------- choices
int choose(int n, int pc, int dc, int kind) {
  if (n <= 1) return 0;
  if (!E->window) return 0;
  int i = E->ncho;
  if (i >= MAXCHO) violation(mc::kDeadlock, "too many choice points (non-termination?)");
  int c = 0;
  if (i < E->prefixlen) {
    c = E->prefix[i];
    if (c >= n) {
      E->result = 4;
      snprintf(E->msg, sizeof E->msg, "replay divergence at choice %d: %d of %d", i, c, n);
      host_switch();
    }
  }
  Choice& ch = E->cho[i];
  ch.c = (u8)c;
  ch.n = (u8)n;
  ch.pc = (u8)pc;
  ch.dc = (u8)dc;
  ch.kind = (u8)kind;
  E->ncho++;
  if (c) {
    E->pcost += pc;
    E->dcost += dc;
  }
  return c;
}

u64 state_hash() {
  u64 s = E->locsum;
  for (int i = 0; i < E->nfib; i++) {
    Fiber& f = E->f[i];
    u64 x = mix(f.h, (u64)f.st * 131 + i);
    x = mix(x, f.wait_addr);
    // With bounded preemptions, staying in a wait loop is not the same as being
    // at its start: leaving it after it blocks is free, leaving it now is not.
    if (E->P >= 0) x = mix(x, f.prev_iter_sig + (f.iter_sig ? 1 : 0));
    s += x * 0x9E3779B97F4A7C15ull;
  }
  s = mix(s, E->nfib);
  s = mix(s, E->observed);
  for (int i = 0; i < E->nmtx; i++) s = mix(s, E->mtx[i].owner);
  if (E->P >= 0) s = mix(s, E->cur * 2 + (E->released_once && E->progress == E->progress_at_release));
  return s ? s : 1;
}

bool visited_or_mark() {
  u64 h = state_hash();
  int pr = E->P < 0 ? 255 : E->P - E->pcost, dr = E->D - E->dcost;
  if (pr < 0) pr = 0;
  if (dr < 0) dr = 0;
  u64 i = h & (VISN - 1);
  for (;;) {
    if (!vis[i].used) {
      if (E->vis_used > VISN * 3 / 4) {
        E->tablefull = true;
        return false;
      }
      vis[i].used = 1;
      vis[i].h = h;
      vis[i].p = (u8)pr;
      vis[i].d = (u8)dr;
      E->vis_used++;
      E->nstates++;
      return false;
    }
    if (vis[i].h == h) {
      if (vis[i].p >= pr && vis[i].d >= dr) return true;
      if (pr >= vis[i].p && dr >= vis[i].d) {
        vis[i].p = (u8)pr;
        vis[i].d = (u8)dr;
      }
      return false;
    }
    i = (i + 1) & (VISN - 1);
  }
}

// ---------------------------------------------------------------- fibers
u64 stack_top(int t) { return STACKS + (u64)(t + 1) * STACK_SZ; }

void switch_to(int t) {
  int me = E->cur;
  if (t == me) return;
  E->f[me].err = errno;
  E->cur = t;
  mc_swap(&E->f[me].rsp, E->f[t].rsp);
  // resumed
  errno = E->f[E->cur].err;
}

const char* stname(int s) {
  static const char* n[] = {"free", "ready", "spinning", "futex", "join", "mwait", "guard", "mutex", "done"};
  return n[s];
}

// Picks the next thread to run; the current one is in state READY or blocked.
void schedule() {
  if (E->steps > 3000000) violation(mc::kDeadlock, "livelock: execution does not terminate (3000000 steps)");
  int opts[MC_MAXT], n = 0;
  for (int round = 0;; round++) {
    n = 0;
    const bool cur_en = E->f[E->cur].st == READY;
    const int pol = E->sc_cur->policy;
    if (cur_en && pol != 3) opts[n++] = E->cur;
    for (int k = 0; k < E->nfib; k++) {
      int t = pol == 0 ? k : pol == 1 ? E->nfib - 1 - k : (E->cur + 1 + k) % E->nfib;
      if (t != E->cur && E->f[t].st == READY) opts[n++] = t;
    }
    if (cur_en && pol == 3) opts[n++] = E->cur;
    if (n) break;
    // nobody ready: release spinners once per progress
    bool spin = false, undone = false;
    for (int t = 0; t < E->nfib; t++) {
      if (E->f[t].st == SPIN) spin = true;
      if (E->f[t].st != DONE && E->f[t].st != FREE) undone = true;
    }
    if (!undone) return;
    if (spin && !(E->released_once && E->progress == E->progress_at_release)) {
      E->released_once = true;
      E->progress_at_release = E->progress;
      for (int t = 0; t < E->nfib; t++)
        if (E->f[t].st == SPIN) {
          E->f[t].st = READY;
          E->f[t].prev_iter_sig = ~E->f[t].iter_sig;  // needs two more equal iterations
        }
      continue;
    }
    char buf[400];
    int o = 0;
    for (int t = 0; t < E->nfib && o < 300; t++)
      o += snprintf(buf + o, sizeof buf - o, " T%d:%s", t, stname(E->f[t].st));
    violation(mc::kDeadlock, "%s: no thread can make progress:%s", spin ? "livelock" : "deadlock", buf);
  }
  bool cur_en = E->f[E->cur].st == READY;
  if (E->window) {
    E->ntrans++;
    if (n > 1) {
      if (E->ncho >= E->prefixlen && visited_or_mark()) {
        E->result = 2;
        host_switch();
      }
    }
  }
  if (E->sc_cur->delay && n > 2) n = 2;  // delay the default thread once: next in order
  int c = choose(n, (cur_en || E->sc_cur->delay) ? 1 : 0, 0, 0);
  if (n > 1 && !E->window && E->sc_cur->policy == 3) c = 0;
  switch_to(opts[c]);
}

void point() {
  E->steps++;
  E->logical++;
  schedule();
}

void block(Status s) {
  E->f[E->cur].st = s;
  E->progress++;
  schedule();
}

// ---------------------------------------------------------------- race detector
bool tracked(u64 a) {
  return (a - ARENA < ARENA_SZ) || (a - STACKS < (u64)MC_MAXT * STACK_SZ) ||
         (a >= (u64)&__data_start && a < (u64)&_end);
}

Cell* cell(u64 key) {
  u32 i = (u32)(mix(key, 7) & (NCELL - 1));
  for (;;) {
    Cell* c = &cells[i];
    if (c->stamp != E->stamp) {
      if (++E->ncell_used > (int)(NCELL * 3 / 4)) violation(mc::kDeadlock, "mc: shadow table full");
      memset(c, 0, sizeof *c);
      c->stamp = E->stamp;
      c->key = key;
      for (int k = 0; k < E->nfreed; k++)
        if ((key << 3) >= E->freed[k].lo && (key << 3) < E->freed[k].hi) c->freed = true;
      return c;
    }
    if (c->key == key) return c;
    i = (i + 1) & (NCELL - 1);
  }
}

void race(u64 a, const char* what, int other) {
  if (!(E->kinds & mc::kRace)) return;
  violation(mc::kRace, "data race: %s at %#lx by T%d is not ordered with T%d", what, (long)a, E->cur, other);
}

void access(u64 a, size_t sz, bool write, bool atomic) {
  if (!E || !E->in_exec || !E->racecheck || !tracked(a)) return;
  int me = E->cur;
  Fiber& f = E->f[me];
  u64 end = a + sz;
  while (a < end) {
    u64 key = a >> 3;
    int b0 = a & 7;
    int b1 = (int)(end - (key << 3) > 8 ? 8 : end - (key << 3));
    u8 m = (u8)(((1u << b1) - 1) & ~((1u << b0) - 1));
    Cell* c = cell(key);
    if (c->freed && (E->kinds & mc::kUaf)) violation(mc::kUaf, "access to freed memory at %#lx by T%d", (long)a, me);
    for (int b = b0; b < b1; b++) {
      if (c->wc[b] && c->wt[b] != me && c->wc[b] > f.vc.c[c->wt[b]] &&
          !(atomic && (c->watom >> b & 1)))
        race((key << 3) + b, write ? (atomic ? "atomic write" : "write") : (atomic ? "atomic read" : "read"), c->wt[b]);
    }
    if (write) {
      for (int t = 0; t < E->nfib; t++) {
        if (t == me) continue;
        if ((c->rm[t] & m) && c->rc[t] > f.vc.c[t]) race(a, atomic ? "atomic write (vs read)" : "write (vs read)", t);
        if (!atomic && (c->ram[t] & m) && c->rac[t] > f.vc.c[t]) race(a, "write (vs atomic read)", t);
      }
      for (int b = b0; b < b1; b++) {
        c->wt[b] = (u8)me;
        c->wc[b] = f.vc.c[me];
      }
      if (atomic)
        c->watom |= m;
      else
        c->watom &= (u8)~m;
      // reads by others before this write are ordered before it
      for (int t = 0; t < E->nfib; t++) {
        c->rm[t] &= (u8)~m;
        if (!atomic) c->ram[t] &= (u8)~m;
      }
    } else if (atomic) {
      c->ram[me] |= m;
      c->rac[me] = f.vc.c[me];
    } else {
      c->rm[me] |= m;
      c->rc[me] = f.vc.c[me];
    }
    a = (key + 1) << 3;
  }
}

// ---------------------------------------------------------------- atomics
u64 rawload(u64 a, int sz) {
  switch (sz) {
    case 1: return *(volatile u8*)a;
    case 2: return *(volatile uint16_t*)a;
    case 4: return *(volatile u32*)a;
    default: return *(volatile u64*)a;
  }
}
void rawstore(u64 a, int sz, u64 v) {
  switch (sz) {
    case 1: *(volatile u8*)a = (u8)v; break;
    case 2: *(volatile uint16_t*)a = (uint16_t)v; break;
    case 4: *(volatile u32*)a = (u32)v; break;
    default: *(volatile u64*)a = v; break;
  }
}

int new_store() {
  if (E->nstore >= NSTORE) violation(mc::kDeadlock, "livelock: too many atomic stores");
  return E->nstore++;
}

Loc* loc(u64 a, int sz) {
  u32 i = (u32)(mix(a, 3) & (NLOC - 1));
  for (;;) {
    Loc* l = &locs[i];
    if (l->stamp != E->stamp) {
      memset(l, 0, sizeof *l);
      l->stamp = E->stamp;
      l->addr = a;
      l->size = (u8)sz;
      int s = new_store();
      Store& st = stores[s];
      st.val = rawload(a, sz);
      st.sid = mix(mix(a, st.val), 99);
      st.clk = 0;
      st.tid = 0;
      st.has_rel = false;
      st.prev = -1;
      st.idx = 0;
      l->last = s;
      l->chain = st.sid;
      for (int t = 0; t < MC_MAXT; t++) l->reads[t] = -1;
      E->locsum += mix(a, l->chain);
      return l;
    }
    if (l->addr == a) {
      Store& st = stores[l->last];
      u64 v = rawload(a, sz);
      if (v != st.val || l->size != sz) {
        // Plain write since (re-initialisation, placement new): becomes a new
        // initial store ordered by the race detector.
        E->locsum -= mix(a, l->chain);
        int s = new_store();
        Store& n = stores[s];
        n = st;
        n.val = v;
        n.sid = mix(mix(a, v), 98 + E->f[E->cur].h);
        n.clk = 0;
        n.tid = 0;
        n.has_rel = false;
        n.prev = -1;
        n.idx = st.idx + 1;
        l->size = (u8)sz;
        l->last = s;
        l->chain = n.sid;
        E->locsum += mix(a, l->chain);
      }
      return l;
    }
    i = (i + 1) & (NLOC - 1);
  }
}

bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void note_read(Fiber& f, u64 a, u64 sid, u64 h_before) {
  if (f.iter_n == 0 && f.iter_sig == 0) {
    f.iter_ver = E->writes;
    f.iter_first_h = h_before;
  }
  f.iter_asig = mix(f.iter_asig, a);
  f.iter_sig = mix(f.iter_sig, mix(a, sid));
  bool known = false;
  for (int i = 0; i < f.iter_n && i < 8; i++)
    if (f.iter_addr[i] == a) known = true;
  if (!known) {
    if (f.iter_n < 8)
      f.iter_addr[f.iter_n] = a;
    f.iter_n++;
  }
}

// A store happened at address a: wake spinners that read it, monitors.
void note_write(u64 a) {
  E->writes++;
  E->progress++;
  int me = E->cur;
  E->f[me].iter_wrote = true;
  E->f[me].last_ld_rep = 0;
  for (int t = 0; t < E->nfib; t++) {
    if (t == me) continue;
    Fiber& f = E->f[t];
    if (f.st == SPIN) {
      bool hit = f.iter_n > 8 || f.iter_n == 0;
      for (int i = 0; i < f.iter_n && i < 8; i++)
        if (f.iter_addr[i] == a) hit = true;
      if (hit) f.st = READY;
    }
    if (f.mon_armed && f.mon_line == (a >> 6)) {
      f.mon_hit = true;
      if (f.st == B_MWAIT) f.st = READY;
    }
  }
}

// End of one iteration of a wait loop. If this iteration was the same as the one
// before (same pause, loads only, same addresses), it changed nothing in the
// thread, so its history hash returns to what it was at the loop's entry; if
// also the values were the same and nothing it read was written since, the
// thread blocks until another thread writes something it read.
void spin_point(u64 pc) {
  Fiber& f = E->f[E->cur];
  bool loop = !f.iter_wrote && !f.prev_iter_wrote && pc == f.prev_pause_pc && f.iter_asig == f.prev_iter_asig &&
              f.iter_n > 0;
  bool same = loop && f.iter_sig == f.prev_iter_sig && !f.iter_stale;
  if (loop)
    f.h = f.loop_h0;
  else
    f.loop_h0 = f.iter_wrote || f.iter_n == 0 ? f.h : f.iter_first_h;
  f.prev_iter_sig = f.iter_sig;
  f.prev_iter_asig = f.iter_asig;
  f.prev_iter_wrote = f.iter_wrote;
  f.prev_pause_pc = pc;
  bool blocks = same && E->writes == f.iter_ver;
  if (blocks) {
    f.st = SPIN;
    E->steps++;
    tr("spin-blocks pc=%#lx", (long)pc);
    schedule();
  } else {
    tr("pause pc=%#lx", (long)pc);
  }
  f.iter_sig = f.iter_asig = 0;
  f.iter_n = 0;
  f.iter_wrote = false;
  f.iter_stale = false;
}

u64 at_load(u64 a, int sz, int mo, u64 pc) {
  if (!E || !E->in_exec) return rawload(a, sz);
  point();
  access(a, sz, false, true);
  int me = E->cur;
  Fiber& f = E->f[me];
  Loc* l = loc(a, sz);
  int s = l->last;
  bool stale = false;
  // A load from the line just armed for monitoring follows x86 coherence: it
  // returns the current value.
  if (E->D > 0 && mo != __ATOMIC_SEQ_CST && !(f.mon_armed && f.mon_line == (a >> 6))) {
    // candidates: newest first
    int cand[8], n = 0;
    u32 lo = l->seen[me];
    for (int t = 0; t < E->nfib; t++) {
      if (t == me) continue;
      for (int r = l->reads[t]; r >= 0; r = rds[r].prev)
        if (rds[r].clk <= f.vc.c[t]) {
          if (rds[r].idx > lo) lo = rds[r].idx;
          break;
        }
    }
    for (int k = l->last; k >= 0 && n < 8; k = stores[k].prev) {
      if (stores[k].idx < lo) break;
      cand[n++] = k;
      if (stores[k].clk <= f.vc.c[stores[k].tid]) break;  // happens-before us
    }
    if (n == 0) cand[n++] = l->last;
    int c = 0;
    if (n > 1 && E->window) c = choose(n, 0, 1, 1);
    s = cand[c];
    stale = c != 0;
  }
  Store& st = stores[s];
  if (st.idx > l->seen[me]) l->seen[me] = st.idx;
  if (E->D > 0) {
    int top = l->reads[me];
    if (top < 0 || rds[top].idx != st.idx) {
      if (E->nrd >= NRD) violation(mc::kDeadlock, "livelock: too many reads");
      int r = E->nrd++;
      rds[r].clk = f.vc.c[me];
      rds[r].idx = st.idx;
      rds[r].prev = top;
      l->reads[me] = r;
    }
  }
  if (st.has_rel) {
    if (acq(mo))
      vc_join(f.vc, st.rel);
    else
      vc_join(f.acq_pending, st.rel);
  }
  if (mo == __ATOMIC_SEQ_CST) vc_join(f.vc, E->sc);
  u64 h_before = f.h;
  f.h = mix(f.h, mix(a, st.sid));
  if (!(f.last_ld_pc == mix(pc, a) && f.last_ld_sid == st.sid)) {
    f.last_ld_pc = mix(pc, a);
    f.last_ld_sid = st.sid;
    f.last_ld_rep = 0;
  } else {
    f.last_ld_rep++;
  }
  if (stale) f.iter_stale = true;
  note_read(f, a, st.sid, h_before);
  tr("load%d %#lx -> %#lx mo=%d%s", sz * 8, (long)a, (long)st.val, mo, stale ? " STALE" : "");
  u64 v = st.val;
  if (f.last_ld_rep >= 500) {  // spinning without pause
    f.last_ld_rep = 498;
    f.iter_sig = f.prev_iter_sig = 1;
    f.iter_asig = f.prev_iter_asig = 1;
    f.loop_h0 = f.h;
    f.iter_n = 1;
    f.iter_addr[0] = a;
    f.iter_wrote = f.prev_iter_wrote = false;
    f.iter_stale = stale;
    f.iter_ver = E->writes;
    f.prev_pause_pc = pc;
    if (s == l->last) spin_point(pc);
  }
  return v;
}

void at_put(Loc* l, u64 a, int sz, int mo, u64 v, bool rmw) {
  int me = E->cur;
  Fiber& f = E->f[me];
  E->locsum -= mix(a, l->chain);
  int p = l->last;
  int s = new_store();
  Store& n = stores[s];
  Store& o = stores[p];
  n.val = v;
  f.h = mix(f.h, mix(mix(a, v), rmw ? 5 : 6));
  n.sid = mix(f.h, me + 1000);
  n.clk = f.vc.c[me];
  n.tid = (u8)me;
  n.has_rel = false;
  memset(&n.rel, 0, sizeof n.rel);
  if (rel(mo)) {
    n.rel = f.vc;
    n.has_rel = true;
  } else if (f.has_rel_fence) {
    n.rel = f.rel_fence;
    n.has_rel = true;
  }
  if ((rmw || (o.tid == me && o.clk)) && o.has_rel) {
    vc_join(n.rel, o.rel);
    n.has_rel = true;
  }
  if (mo == __ATOMIC_SEQ_CST) vc_join(E->sc, f.vc);
  n.prev = E->D > 0 ? p : -1;
  n.idx = o.idx + 1;
  l->last = s;
  l->seen[me] = n.idx;
  l->chain = E->D > 0 ? mix(l->chain, n.sid) : n.sid;
  E->locsum += mix(a, l->chain);
  rawstore(a, sz, v);
  f.vc.c[me]++;
  f.last_ld_pc = 0;
  note_write(a);
}

void at_store(u64 a, int sz, int mo, u64 v) {
  if (sz < 8) v &= (1ull << (sz * 8)) - 1;
  if (!E || !E->in_exec) return rawstore(a, sz, v);
  point();
  access(a, sz, true, true);
  Loc* l = loc(a, sz);
  tr("store%d %#lx = %#lx mo=%d", sz * 8, (long)a, (long)v, mo);
  at_put(l, a, sz, mo, v, false);
}

enum { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND };
u64 rmwop(int op, u64 o, u64 v) {
  switch (op) {
    case R_XCHG: return v;
    case R_ADD: return o + v;
    case R_SUB: return o - v;
    case R_AND: return o & v;
    case R_OR: return o | v;
    case R_XOR: return o ^ v;
    default: return ~(o & v);
  }
}
u64 trunc_to(u64 v, int sz) { return sz < 8 ? v & ((1ull << (sz * 8)) - 1) : v; }

void rmw_read(Loc* l, int mo) {
  Fiber& f = E->f[E->cur];
  Store& o = stores[l->last];
  if (o.has_rel) {
    if (acq(mo))
      vc_join(f.vc, o.rel);
    else
      vc_join(f.acq_pending, o.rel);
  }
  if (mo == __ATOMIC_SEQ_CST) vc_join(f.vc, E->sc);
  f.h = mix(f.h, mix(l->addr, o.sid + 17));
}

u64 at_rmw(u64 a, int sz, int mo, int op, u64 v) {
  if (!E || !E->in_exec) {
    u64 o = rawload(a, sz);
    rawstore(a, sz, rmwop(op, o, v));
    return o;
  }
  point();
  access(a, sz, true, true);
  Loc* l = loc(a, sz);
  rmw_read(l, mo);
  u64 o = stores[l->last].val;
  u64 nv = trunc_to(rmwop(op, o, v), sz);
  tr("rmw%d %#lx op%d %#lx -> %#lx mo=%d", sz * 8, (long)a, op, (long)o, (long)nv, mo);
  at_put(l, a, sz, mo, nv, true);
  return o;
}

bool at_cas(u64 a, int sz, u64* exp, u64 des, int mo, int fmo) {
  if (!E || !E->in_exec) {
    u64 o = rawload(a, sz);
    if (o == *exp) {
      rawstore(a, sz, des);
      return true;
    }
    *exp = o;
    return false;
  }
  point();
  Loc* l = loc(a, sz);
  u64 o = stores[l->last].val;
  if (o == trunc_to(*exp, sz)) {
    access(a, sz, true, true);
    rmw_read(l, mo);
    tr("cas%d %#lx %#lx -> %#lx ok", sz * 8, (long)a, (long)o, (long)des);
    at_put(l, a, sz, mo, trunc_to(des, sz), true);
    return true;
  }
  access(a, sz, false, true);
  rmw_read(l, fmo);
  note_read(E->f[E->cur], a, stores[l->last].sid, E->f[E->cur].h);
  tr("cas%d %#lx expected %#lx found %#lx", sz * 8, (long)a, (long)*exp, (long)o);
  *exp = o;
  return false;
}

void fence(int mo) {
  if (!E || !E->in_exec) return;
  Fiber& f = E->f[E->cur];
  if (acq(mo)) vc_join(f.vc, f.acq_pending);
  if (mo == __ATOMIC_SEQ_CST) {
    vc_join(f.vc, E->sc);
    vc_join(E->sc, f.vc);
  }
  if (rel(mo)) {
    f.rel_fence = f.vc;
    f.has_rel_fence = true;
  }
  f.h = mix(f.h, 333 + mo);
  f.vc.c[E->cur]++;
}

// ---------------------------------------------------------------- threads
void fiber_entry();

int new_fiber(void* (*fn)(void*), void* arg) {
  if (E->nfib >= MC_MAXT) violation(mc::kAssert, "mc: too many threads");
  int t = E->nfib++;
  Fiber& f = E->f[t];
  memset(&f, 0, sizeof f);
  f.st = READY;
  f.fn = fn;
  f.arg = arg;
  f.h = mix(t, 4242);
  u64* sp = (u64*)(stack_top(t) - 64);
  *--sp = 0;
  *--sp = (u64)&fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp;
  ((u32*)sp)[0] = 0x1F80;
  ((u32*)sp)[1] = 0x037F;
  f.rsp = sp;
  f.vc.c[t] = 1;
  return t;
}

void fiber_done() {
  Fiber& f = E->f[E->cur];
  f.st = DONE;
  f.vc.c[E->cur]++;
  E->progress++;
  for (int t = 0; t < E->nfib; t++)
    if (E->f[t].st == B_JOIN && E->f[t].wait_tid == E->cur) E->f[t].st = READY;
  tr("exit");
}

void fiber_entry() {
  Fiber& f = E->f[E->cur];
  errno = 0;
  f.h = mix(f.h, 5150);
  f.ret = f.fn(f.arg);
  fiber_done();
  if (E->cur == 0) {
    for (int t = 1; t < E->nfib; t++) {
      if (E->f[t].st != DONE)
        violation(mc::kLeak, "thread T%d still exists (%s) after the scenario ended", t, stname(E->f[t].st));
      if (!E->f[t].joined && !E->f[t].detached) violation(mc::kLeak, "thread T%d was never joined", t);
    }
    E->result = 1;
    host_switch();
  }
  schedule();
  __builtin_trap();
}

}  // namespace

// ---------------------------------------------------------------- interposition
extern "C" {

void* malloc(size_t n) {
  if (!E || !E->in_exec) return __libc_malloc(n);
  size_t sz = (n + 15) & ~(size_t)15;
  u64 p = ARENA + ((E->bump + 15) & ~(size_t)15) + 16;
  E->bump = p - ARENA + sz;
  if (E->bump > ARENA_SZ) violation(mc::kDeadlock, "mc: arena full");
  ((u64*)p)[-1] = n;
  memset((void*)p, 0xA5, n < 65536 ? n : 65536);
  return (void*)p;
}
static bool is_arena(void* p) { return (u64)p - ARENA < ARENA_SZ; }
void free(void* p) {
  if (!p) return;
  if (!is_arena(p)) {
    if ((u64)p >= STACKS && (u64)p < STACKS + (u64)MC_MAXT * STACK_SZ) return;
    return __libc_free(p);
  }
  if (E->in_exec) {
    size_t n = ((u64*)p)[-1];
    u64 a = (u64)p;
    if (n < 65536) {
      access(a, n < 2048 ? n : 2048, true, false);
      if (E->nfreed < 256) {
        E->freed[E->nfreed].lo = a;
        E->freed[E->nfreed].hi = a + n;
        E->nfreed++;
      }
      // mark the cells that exist
      for (u64 k = a >> 3; k < (a + n) >> 3; k++) {
        u32 i = (u32)(mix(k, 7) & (NCELL - 1));
        while (cells[i].stamp == E->stamp) {
          if (cells[i].key == k) {
            cells[i].freed = true;
            break;
          }
          i = (i + 1) & (NCELL - 1);
        }
      }
    }
  }
}
void* calloc(size_t a, size_t b) {
  if (!E || !E->in_exec) return __libc_calloc(a, b);
  void* p = malloc(a * b);
  memset(p, 0, a * b);
  return p;
}
void* memalign(size_t al, size_t n) {
  if (!E || !E->in_exec) return __libc_memalign(al, n);
  if (al < 16) al = 16;
  E->bump = ((E->bump + 16 + al - 1) & ~(al - 1)) - 16;
  return malloc(n);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  *out = memalign(al, n);
  return *out ? 0 : ENOMEM;
}
void* realloc(void* p, size_t n) {
  if (!is_arena(p) && (!E || !E->in_exec)) return __libc_realloc(p, n);
  void* q = malloc(n);
  if (p) {
    size_t o = is_arena(p) ? ((u64*)p)[-1] : n;
    memcpy(q, p, o < n ? o : n);
    free(p);
  }
  return q;
}

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!E || !E->in_exec) {
    fprintf(stderr, "mc: pthread_create outside an execution\n");
    _exit(3);
  }
  (void)real_pthread_create;
  point();
  int me = E->cur;
  int t = new_fiber(fn, arg);
  vc_join(E->f[t].vc, E->f[me].vc);
  E->f[t].vc.c[t] = 1;
  E->f[me].vc.c[me]++;
  E->f[me].h = mix(E->f[me].h, 50 + t);
  E->f[t].h = mix(E->f[me].h, t);
  *th = (pthread_t)(t + 1);
  E->progress++;
  tr("create T%d", t);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  int t = (int)th - 1;
  if (t < 0 || t >= E->nfib) violation(mc::kAssert, "join of an invalid thread");
  point();
  int me = E->cur;
  while (E->f[t].st != DONE) {
    E->f[me].wait_tid = t;
    block(B_JOIN);
  }
  if (E->f[t].joined) violation(mc::kAssert, "double join");
  E->f[t].joined = true;
  vc_join(E->f[me].vc, E->f[t].vc);
  E->f[me].h = mix(E->f[me].h, mix(E->f[t].h, 60 + t));
  if (ret) *ret = E->f[t].ret;
  tr("joined T%d", t);
  return 0;
}
int pthread_detach(pthread_t th) {
  E->f[(int)th - 1].detached = true;
  return 0;
}
int pthread_setname_np(pthread_t, const char*) { return 0; }

static int guard_idx(u64 a) {
  for (int i = 0; i < E->nguard; i++)
    if (E->guard[i].addr == a) return i;
  int i = E->nguard++;
  E->guard[i].addr = a;
  E->guard[i].owner = -1;
  E->guard[i].done = false;
  return i;
}
static u64 guard_clock_addr(u64 a) { return a; }
int __cxa_guard_acquire(u64* g) {
  if (!E || !E->in_exec) return *(u8*)g == 0;
  for (;;) {
    // The runtime library reads the guard byte under its lock (or with a
    // compare-exchange), hence the current value.
    point();
    access((u64)g, 1, false, true);
    Loc* l = loc((u64)g, 1);
    rmw_read(l, __ATOMIC_ACQUIRE);
    const u64 v = stores[l->last].val;
    note_read(E->f[E->cur], (u64)g, stores[l->last].sid, E->f[E->cur].h);
    if (v & 1) return 0;
    int i = guard_idx(guard_clock_addr((u64)g));
    if (E->guard[i].owner < 0) {
      E->guard[i].owner = E->cur;
      E->f[E->cur].h = mix(E->f[E->cur].h, 71);
      return 1;
    }
    E->f[E->cur].wait_addr = (u64)g;
    block(B_GUARD);
    E->f[E->cur].wait_addr = 0;
  }
}
void __cxa_guard_release(u64* g) {
  if (!E || !E->in_exec) {
    *(u8*)g = 1;
    return;
  }
  at_store((u64)g, 1, __ATOMIC_RELEASE, 1);
  int i = guard_idx((u64)g);
  E->guard[i].owner = -1;
  for (int t = 0; t < E->nfib; t++)
    if (E->f[t].st == B_GUARD && E->f[t].wait_addr == (u64)g) E->f[t].st = READY;
}
void __cxa_guard_abort(u64* g) {
  if (!E || !E->in_exec) return;
  int i = guard_idx((u64)g);
  E->guard[i].owner = -1;
  for (int t = 0; t < E->nfib; t++)
    if (E->f[t].st == B_GUARD && E->f[t].wait_addr == (u64)g) E->f[t].st = READY;
}

static Mtx* mtx(u64 a) {
  for (int i = 0; i < E->nmtx; i++)
    if (E->mtx[i].addr == a) return &E->mtx[i];
  if (E->nmtx >= 32) violation(mc::kAssert, "mc: too many mutexes");
  E->mtx[E->nmtx].addr = a;
  E->mtx[E->nmtx].owner = -1;
  return &E->mtx[E->nmtx++];
}
// Mutexes are modelled by the lock word's first 4 bytes as an atomic location
// for happens-before plus an owner.
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!E || !E->in_exec) return 0;
  point();
  Mtx* x = mtx((u64)m);
  while (x->owner >= 0) {
    E->f[E->cur].wait_addr = (u64)m;
    block(B_MUTEX);
    E->f[E->cur].wait_addr = 0;
  }
  x->owner = E->cur;
  Loc* l = loc((u64)m, 4);
  rmw_read(l, __ATOMIC_ACQUIRE);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!E || !E->in_exec) return 0;
  point();
  Mtx* x = mtx((u64)m);
  if (x->owner >= 0) return EBUSY;
  x->owner = E->cur;
  Loc* l = loc((u64)m, 4);
  rmw_read(l, __ATOMIC_ACQUIRE);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!E || !E->in_exec) return 0;
  point();
  Mtx* x = mtx((u64)m);
  x->owner = -1;
  Loc* l = loc((u64)m, 4);
  at_put(l, (u64)m, 4, __ATOMIC_RELEASE, (u32)stores[l->last].val, true);
  for (int t = 0; t < E->nfib; t++)
    if (E->f[t].st == B_MUTEX && E->f[t].wait_addr == (u64)m) E->f[t].st = READY;
  return 0;
}

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) {
    errno = (int)-ret;
    return -1;
  }
  return ret;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!E || !E->in_exec || n != SYS_futex) return raw_syscall(n, a, b, c, d, e, f);
  int op = (int)b & FUTEX_CMD_MASK;
  u64 addr = (u64)a;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    point();
    int me = E->cur;
    access(addr, 4, false, true);
    Loc* l = loc(addr, 4);
    u32 cur = (u32)stores[l->last].val;
    tr("futex_wait %#lx expected %u current %u", (long)addr, (u32)c, cur);
    E->f[me].h = mix(E->f[me].h, mix(addr, stores[l->last].sid + 31));
    if (cur != (u32)c) {
      errno = EAGAIN;
      return -1;
    }
    bool timed = d != 0;
    if (ENVP->futex_faults || timed) {
      int k = choose(3, 0, 1, 2);
      if (k == 1) {
        tr("futex_wait EINTR");
        errno = timed ? ETIMEDOUT : EINTR;
        E->f[me].iter_stale = true;
        return -1;
      }
      if (k == 2) {
        tr("futex_wait spurious wakeup");
        E->f[me].iter_stale = true;
        return 0;
      }
    }
    E->f[me].wait_addr = addr;
    E->f[me].futex_ret = 0;
    if (timed) {
      // may always time out later: treat as a spinner
      E->f[me].st = SPIN;
      E->f[me].iter_n = 0;
      schedule();
    } else {
      block(B_FUTEX);
    }
    E->f[me].wait_addr = 0;
    tr("futex_wait returns");
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    point();
    int me = E->cur;
    int w[MC_MAXT], nw = 0;
    for (int t = 0; t < E->nfib; t++)
      if (E->f[t].st == B_FUTEX && E->f[t].wait_addr == addr) w[nw++] = t;
    long lim = (int)c;
    if (lim < 0) lim = 1;  // Linux: nr_wake < 0 wakes one
    if (lim == 0) lim = 1;
    int woken = 0;
    tr("futex_wake %#lx n=%d waiters=%d", (long)addr, (int)c, nw);
    while (nw && woken < lim) {
      int k = (nw > lim - woken) ? choose(nw, 0, 0, 4) : 0;
      E->f[w[k]].st = READY;
      for (int j = k; j + 1 < nw; j++) w[j] = w[j + 1];
      nw--;
      woken++;
    }
    if (woken) E->progress++;
    E->f[me].h = mix(E->f[me].h, mix(addr, 777 + woken));
    return woken;
  }
  violation(mc::kAssert, "mc: unsupported futex op %d", op);
}

static int sleepish(u64 pc) {
  spin_point(pc);
  return 0;
}
int sched_yield() {
  if (!E || !E->in_exec) return 0;
  return sleepish((u64)__builtin_return_address(0));
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (!E || !E->in_exec) return (int)raw_syscall(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0);
  if (ENVP->futex_faults) {
    int k = choose(2, 0, 1, 2);
    if (k == 1) {
      if (b) { b->tv_sec = 0; b->tv_nsec = 1; }
      E->f[E->cur].iter_stale = true;
      errno = EINTR;
      return -1;
    }
  }
  return sleepish((u64)__builtin_return_address(0));
}
int usleep(unsigned) {
  if (!E || !E->in_exec) return 0;
  return sleepish((u64)__builtin_return_address(0));
}

void abort() {
  if (E && E->in_exec) violation(mc::kCrash, "abort() called");
  signal(SIGABRT, SIG_DFL);
  kill(getpid(), SIGABRT);
  _exit(134);
}

// ---- instruction stubs: regs = {rax, rbx, rcx, rdx, rsi, rdi, ...}, regs[16] = return address
static u64 ret_pc(u64* r) { return r[16]; }
void mc_h_pause(u64* r) {
  if (!E || !E->in_exec) return;
  spin_point(ret_pc(r));
}
void mc_h_cpuid(u64* r) {
  u32 leaf = (u32)r[0], sub = (u32)r[2];
  u32 o[4] = {0, 0, 0, 0};
  if (ENVP->cpuid) {
    ENVP->cpuid(leaf, sub, o);
  } else {
    const char* v = ENVP->amd ? "AuthenticAMD" : "GenuineIntel";
    u32 w[3];
    memcpy(w, v, 12);
    switch (leaf) {
      case 0: o[0] = 0x16; o[1] = w[0]; o[3] = w[1]; o[2] = w[2]; break;
      case 1: o[0] = 0x806F8; o[2] = 0; o[3] = 1u << 4 | 1u << 25 | 1u << 26; break;
      case 7: if (sub == 0) o[2] = ENVP->waitpkg ? 1u << 5 : 0; break;
      case 0x80000000u: o[0] = 0x80000008u; break;
      case 0x80000001u: o[2] = ENVP->monitorx ? 1u << 29 : 0; o[3] = 1u << 27; break;
      case 0x80000007u: o[3] = 1u << 8; break;
      default: break;
    }
  }
  r[0] = o[0]; r[1] = o[1]; r[2] = o[2]; r[3] = o[3];
}
void mc_h_xgetbv(u64* r) {
  u64 v = ENVP->xgetbv ? ENVP->xgetbv() : 7;
  r[0] = (u32)v;
  r[3] = v >> 32;
}
static u64 tsc() {
  if (!E) return 0;
  if (E->in_exec) E->tsc += ENVP->tsc_step; else E->tsc += 1000;
  return E->tsc;
}
void mc_h_rdtsc(u64* r) {
  u64 t = tsc();
  r[0] = (u32)t;
  r[3] = t >> 32;
}
void mc_h_rdtscp(u64* r) {
  mc_h_rdtsc(r);
  r[2] = 0;
}
static void do_monitor(u64 addr) {
  if (!E || !E->in_exec) return;
  point();
  Fiber& f = E->f[E->cur];
  f.mon_line = addr >> 6;
  f.mon_armed = true;
  f.mon_hit = false;
  f.h = mix(f.h, mix(addr, 909));
  f.last_ld_rep = 0;
  f.last_ld_pc = 0;
  tr("monitor %#lx", (long)addr);
}
static void do_mwait() {
  if (!E || !E->in_exec) return;
  point();
  Fiber& f = E->f[E->cur];
  f.last_ld_rep = 0;
  f.h = mix(f.h, f.mon_armed && !f.mon_hit ? 910 : 911);
  if (!f.mon_armed || f.mon_hit) {
    f.mon_armed = false;
    tr("mwait returns at once");
    return;
  }
  if (ENVP->monitor_faults) {
    if (choose(2, 0, 1, 3)) {
      f.mon_armed = false;
      tr("mwait spurious");
      return;
    }
  }
  tr("mwait blocks");
  f.wait_addr = f.mon_line;
  block(B_MWAIT);
  Fiber& g = E->f[E->cur];
  g.wait_addr = 0;
  g.mon_armed = false;
}
void mc_h_umonitor(u64* r) { do_monitor(r[2]); }
void mc_h_umwait(u64* r) { (void)r; do_mwait(); }
void mc_h_monitorx(u64* r) { do_monitor(r[0]); }
void mc_h_mwaitx(u64* r) {
  if (((u32)r[2] & 2) && E && E->in_exec) {  // timeout enabled
    spin_point(ret_pc(r));
    return;
  }
  do_mwait();
}

// ---- TSan instrumentation interface
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define PLAIN(N)                                                          \
  void __tsan_read##N(void* a) { access((u64)a, N, false, false); }       \
  void __tsan_write##N(void* a) { access((u64)a, N, true, false); }       \
  void __tsan_unaligned_read##N(void* a) { access((u64)a, N, false, false); } \
  void __tsan_unaligned_write##N(void* a) { access((u64)a, N, true, false); } \
  void __tsan_volatile_read##N(void* a) { access((u64)a, N, false, false); }  \
  void __tsan_volatile_write##N(void* a) { access((u64)a, N, true, false); }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)
void __tsan_read_range(void* a, size_t n) { access((u64)a, n, false, false); }
void __tsan_write_range(void* a, size_t n) { access((u64)a, n, true, false); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access((u64)p, 8, true, false);
}
void __tsan_vptr_read(void** p) { access((u64)p, 8, false, false); }
#define PC ((u64)__builtin_return_address(0))
#define ATOM(BITS, T)                                                                             \
  T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { return (T)at_load((u64)a, BITS / 8, mo, PC); } \
  void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { at_store((u64)a, BITS / 8, mo, (u64)v); }   \
  T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { return (T)at_rmw((u64)a, BITS / 8, mo, R_XCHG, (u64)v); } \
  T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { return (T)at_rmw((u64)a, BITS / 8, mo, R_ADD, (u64)v); } \
  T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { return (T)at_rmw((u64)a, BITS / 8, mo, R_SUB, (u64)v); } \
  T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { return (T)at_rmw((u64)a, BITS / 8, mo, R_AND, (u64)v); } \
  T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { return (T)at_rmw((u64)a, BITS / 8, mo, R_OR, (u64)v); }   \
  T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { return (T)at_rmw((u64)a, BITS / 8, mo, R_XOR, (u64)v); } \
  T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { return (T)at_rmw((u64)a, BITS / 8, mo, R_NAND, (u64)v); } \
  int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) {  \
    u64 x = (u64)*e; bool r = at_cas((u64)a, BITS / 8, &x, (u64)d, mo, fmo); *e = (T)x; return r; } \
  int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) {    \
    u64 x = (u64)*e; bool r = at_cas((u64)a, BITS / 8, &x, (u64)d, mo, fmo); *e = (T)x; return r; } \
  T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T e, T d, int mo, int fmo) {        \
    u64 x = (u64)e; at_cas((u64)a, BITS / 8, &x, (u64)d, mo, fmo); return (T)x; }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access((u64)s, n, false, false);
  access((u64)d, n, true, false);
  return __builtin_memcpy(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  access((u64)d, n, true, false);
  return __builtin_memset(d, c, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  access((u64)s, n, false, false);
  access((u64)d, n, true, false);
  return __builtin_memmove(d, s, n);
}
}  // extern "C"

// ---------------------------------------------------------------- driver
namespace mc {
Env& env() { return *ENVP; }

void window_begin() {
  E->window = true;
}
void window_end() { E->window = false; }
void fail(const char* fmt, ...) {
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  bool s = E->in_exec;
  E->in_exec = false;
  vsnprintf(b, sizeof b, fmt, ap);
  E->in_exec = s;
  va_end(ap);
  violation(kAssert, "%s", b);
}
void check(bool ok, const char* fmt, ...) {
  if (ok || !(E->kinds & kAssert)) return;
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  bool s = E->in_exec;
  E->in_exec = false;
  vsnprintf(b, sizeof b, fmt, ap);
  E->in_exec = s;
  va_end(ap);
  violation(kAssert, "%s", b);
}
void observe(uint64_t v) {
  E->observed = mix(E->observed, v);
  E->f[E->cur].last_ld_rep = 0;  // the caller makes progress
  E->f[E->cur].iter_wrote = true;
}
int self() { return E->cur; }
uint64_t now() { return E->logical; }
void yield_point() {
  if (!E || !E->in_exec) return;
  E->f[E->cur].last_ld_rep = 0;
  point();
  E->f[E->cur].h = mix(E->f[E->cur].h, 4711);
}
}  // namespace mc

namespace {
void* body_tramp(void*) {
  E->sc_cur->body(E->sc_cur->args);
  return nullptr;
}

void on_crash(int sig) {
  if (E) {
    E->in_exec = false;
    E->result = 3;
    E->vkind = mc::kCrash;
    snprintf(E->msg, sizeof E->msg, "crash: signal %d in T%d", sig, E->cur);
  }
  siglongjmp(crash_jb, 1);
}

void exec_reset() {
  Eng* e = E;
  e->stamp++;
  if (e->stamp == 0) e->stamp = 1;
  e->nfib = 0;
  e->cur = 0;
  e->window = false;
  e->bump = 0;
  e->writes = e->progress = e->progress_at_release = 0;
  e->released_once = false;
  e->locsum = 0;
  e->steps = e->logical = e->observed = 0;
  e->tsc = 1000000;
  e->nstore = e->nrd = 0;
  memset(&e->sc, 0, sizeof e->sc);
  e->nmtx = e->nguard = e->ncell_used = e->nfreed = 0;
  e->ncho = 0;
  e->pcost = e->dcost = 0;
  e->result = 0;
  e->vkind = 0;
  e->msg[0] = 0;
  memcpy(g_data_lo, g_data_copy, (size_t)(g_data_hi - g_data_lo));
  *ENVP = mc::Env();
}

void run_one() {
  exec_reset();
  int t = new_fiber(body_tramp, nullptr);
  (void)t;
  E->f[0].joined = true;
  E->cur = 0;
  if (sigsetjmp(crash_jb, 0) == 0) {
    E->in_exec = true;
    mc_swap(&E->host_rsp, E->f[0].rsp);
  }
  E->in_exec = false;
  E->nexec++;
  E->nsteps += E->steps;
}

double now_s() {
  struct timespec ts;
  raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0, 0, 0, 0);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

struct Res {  // shared with the parent
  int done;   // 0 not run, 1 complete, 2 capped, 3 violation, 4 error
  int vkind;
  u64 nexec, npruned, nstates, ntrans, nsteps, ncomplete, outcomes;
  double wall;
  int ncho;
  char msg[512];
  u8 cho[MAXCHO];
  int min_p, min_d;
};

void outcome(u64 o) {
  o = mix(o, 12345) | 1;
  u64 i = o & (OUTN - 1);
  for (int k = 0; k < 4096; k++) {
    if (outs[i] == o) return;
    if (!outs[i]) {
      outs[i] = o;
      E->nouts++;
      return;
    }
    i = (i + 1) & (OUTN - 1);
  }
}

// Explores one scenario to its bounds.
void explore(mc::Scenario* s, Res* r, int kinds, double cap_scale) {
  E->sc_cur = s;
  E->P = s->preempt;
  E->D = s->data;
  E->prefixlen = 0;
  E->racecheck = (kinds & (mc::kRace | mc::kUaf)) != 0;
  E->kinds = kinds;
  double t0 = now_s();
  r->done = 1;
  for (;;) {
    run_one();
    if (E->result == 3) {
      bool report = (E->vkind & kinds) != 0;
      if (report) {
        r->done = 3;
        r->vkind = E->vkind;
        r->ncho = E->ncho;
        for (int i = 0; i < E->ncho; i++) r->cho[i] = E->cho[i].c;
        memcpy(r->msg, E->msg, sizeof r->msg);
        r->min_p = E->pcost;
        r->min_d = E->dcost;
        break;
      }
      E->ncomplete++;
    } else if (E->result == 4) {
      r->done = 4;
      memcpy(r->msg, E->msg, sizeof r->msg);
      break;
    } else if (E->result == 2) {
      E->npruned++;
    } else {
      E->ncomplete++;
      outcome(E->observed);
    }
    // next prefix: deepest choice with an affordable untried alternative
    int i = E->ncho - 1;
    int pc = 0, dc = 0;
    int *pcs = E->pcs, *dcs = E->dcs;
    for (int k = 0; k < E->ncho; k++) {
      pcs[k] = pc;
      dcs[k] = dc;
      if (E->cho[k].c) {
        pc += E->cho[k].pc;
        dc += E->cho[k].dc;
      }
    }
    for (; i >= 0; i--) {
      Choice& c = E->cho[i];
      if (c.c + 1 >= c.n) continue;
      if (E->P >= 0 && pcs[i] + c.pc > E->P) continue;
      if (dcs[i] + c.dc > E->D) continue;
      break;
    }
    if (i < 0) break;
    for (int k = 0; k < i; k++) E->prefix[k] = E->cho[k].c;
    E->prefix[i] = (u8)(E->cho[i].c + 1);
    E->prefixlen = i + 1;
    if ((E->nexec & 63) == 0 && now_s() - t0 > s->cap_s * cap_scale) {
      r->done = 2;
      break;
    }
  }
  if (E->tablefull && r->done == 1) r->done = 2;
  r->nexec = E->nexec;
  r->npruned = E->npruned;
  r->nstates = E->nstates;
  r->ntrans = E->ntrans;
  r->nsteps = E->nsteps;
  r->ncomplete = E->ncomplete;
  r->outcomes = E->nouts;
  r->wall = now_s() - t0;
}

void* map_fixed(u64 at, size_t n) {
  void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED : 0), -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return p;
}

void engine_init() {
  Eng* e = (Eng*)map_fixed(0, sizeof(Eng));
  cells = (Cell*)map_fixed(0, sizeof(Cell) * NCELL);
  locs = (Loc*)map_fixed(0, sizeof(Loc) * NLOC);
  stores = (Store*)map_fixed(0, sizeof(Store) * NSTORE);
  rds = (Rd*)map_fixed(0, sizeof(Rd) * NRD);
  map_fixed(ARENA, ARENA_SZ);
  map_fixed(STACKS, (size_t)MC_MAXT * STACK_SZ);
  VISN = 1ull << 24;
  vis = (Vis*)map_fixed(0, sizeof(Vis) * VISN);
  outs = (u64*)map_fixed(0, sizeof(u64) * OUTN);
  ENVP = (mc::Env*)map_fixed(0, 4096);
  *ENVP = mc::Env();
  E = e;
  stack_t ss;
  ss.ss_sp = map_fixed(0, 1 << 16);
  ss.ss_size = 1 << 16;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_crash;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
  sigaction(SIGILL, &sa, nullptr);
  sigaction(SIGFPE, &sa, nullptr);
  sigaction(SIGTRAP, &sa, nullptr);
}

// Program-under-test globals live in the sections between these symbols; the
// runtime's own globals are excluded by being listed in mc_keep.
struct Keep { void* p; size_t n; };
}  // namespace

namespace mc {

static void snapshot_data() {
  // Snapshot of all writable data of the executable except this file's
  // globals, which are kept by saving/restoring around the copy.
  g_data_lo = &__data_start;
  g_data_hi = &_end;
}

int run(int argc, char** argv, Scenario* sc, int n, int kinds) {
  const char* replay = nullptr;
  const char* out = nullptr;
  const char* vdir = ".";
  const char* only = nullptr;
  int jobs = 8;
  double cap = 1.0;
  bool verbose = false;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--vdir")) vdir = argv[++i];
    else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--only")) only = argv[++i];
    else if (!strcmp(argv[i], "--cap")) cap = atof(argv[++i]);
    else if (!strcmp(argv[i], "-v")) verbose = true;
  }
  snapshot_data();
  engine_init();
  // The copy lives outside the data section; globals of this file that change
  // later are re-established by exec_reset callers through E/ENVP (mmapped).
  size_t dn = (size_t)(g_data_hi - g_data_lo);
  g_data_copy = (char*)map_fixed(0, (dn + 4095) & ~4095ull);

  if (replay) {
    FILE* f = fopen(replay, "r");
    if (!f) { perror(replay); return 3; }
    char line[1 << 16], name[256] = "";
    Scenario* s = nullptr;
    int np = 0;
    u8* pre = E->pre;
    while (fgets(line, sizeof line, f)) {
      if (sscanf(line, "scenario %255s", name) == 1) {
        for (int i = 0; i < n; i++) if (!strcmp(sc[i].name, name)) s = &sc[i];
      } else if (!strncmp(line, "choices", 7)) {
        char* p = line + 7;
        int c, adv;
        while (sscanf(p, "%d%n", &c, &adv) == 1) { pre[np++] = (u8)c; p += adv; }
      } else if (!strncmp(line, "more", 4)) {
        char* p = line + 4;
        int c, adv;
        while (sscanf(p, "%d%n", &c, &adv) == 1) { pre[np++] = (u8)c; p += adv; }
      }
    }
    fclose(f);
    if (!s) { fprintf(stderr, "scenario %s not found\n", name); return 3; }
    E->sc_cur = s;
    g_trace = stdout;
    E->tracing = true;
    E->P = s->preempt; E->D = s->data; E->racecheck = (kinds & (kRace | kUaf)) != 0; E->kinds = kinds;
    memcpy(E->prefix, pre, np);
    E->prefixlen = np;
    memcpy(g_data_copy, g_data_lo, dn);
    // no pruning in a replay: make every state fresh
    run_one();
    printf("result=%d kind=%d %s\n", E->result, E->vkind, E->msg);
    return E->result == 3 ? 1 : 0;
  }

  Res* res = (Res*)mmap(nullptr, sizeof(Res) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int running = 0, next = 0, bad = 0;
  pid_t pids[2048];
  double t_start = now_s();
  while (next < n || running) {
    while (running < jobs && next < n) {
      int k = next++;
      pids[k] = -1;
      if (only && !strstr(sc[k].name, only)) { res[k].done = 5; continue; }
      pid_t p = fork();
      if (p == 0) {
        memcpy(g_data_copy, g_data_lo, dn);
        explore(&sc[k], &res[k], kinds, cap);
        if (res[k].done == 3) {
          // confirm by replaying the same schedule twice in this process
          for (int rep = 0; rep < 2; rep++) {
            memset((void*)vis, 0, 0);
            E->prefixlen = res[k].ncho;
            memcpy(E->prefix, res[k].cho, (size_t)res[k].ncho);
            int kind0 = res[k].vkind;
            run_one();
            if (E->result != 3 || E->vkind != kind0) {
              res[k].done = 4;
              snprintf(res[k].msg + strlen(res[k].msg), 100, " [not reproduced: result %d]", E->result);
              break;
            }
          }
        }
        _exit(0);
      }
      pids[k] = p;
      running++;
    }
    int st;
    pid_t p = wait(&st);
    if (p < 0) break;
    running--;
    for (int k = 0; k < n; k++)
      if (pids[k] == p && (res[k].done == 0 || !WIFEXITED(st) || WEXITSTATUS(st) != 0)) {
        res[k].done = 4;
        snprintf(res[k].msg, sizeof res[k].msg, "worker process ended abnormally (status %d)", st);
      }
  }
  u64 S = 0, T = 0, X = 0, C = 0, O = 0, ST = 0;
  int complete = 0, capped = 0, total = 0;
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"scenarios\":[");
  bool first = true;
  for (int k = 0; k < n; k++) {
    Res& r = res[k];
    if (r.done == 5) continue;
    total++;
    S += r.nstates; T += r.ntrans; X += r.nexec; C += r.ncomplete; O += r.outcomes; ST += r.nsteps;
    if (r.done == 1) complete++;
    if (r.done == 2) capped++;
    fprintf(f, "%s\n{\"name\":\"%s\",\"preemptions\":%d,\"deviations\":%d,\"status\":\"%s\",\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"complete_executions\":%lu,\"distinct_outcomes\":%lu,\"wall_s\":%.2f}",
            first ? "" : ",", sc[k].name, sc[k].preempt, sc[k].data,
            r.done == 1 ? "exhausted" : r.done == 2 ? "capped" : r.done == 3 ? "violation" : "error",
            r.nstates, r.ntrans, r.nexec, r.ncomplete, r.outcomes, r.wall);
    first = false;
    if (verbose)
      fprintf(stderr, "%-46s P%2d D%d %-9s states %8lu trans %9lu exec %8lu out %5lu %.2fs %s\n", sc[k].name, sc[k].preempt, sc[k].data,
              r.done == 1 ? "exhausted" : r.done == 2 ? "capped" : r.done == 3 ? "VIOLATION" : "ERROR", r.nstates, r.ntrans, r.nexec, r.outcomes, r.wall,
              r.done >= 3 ? r.msg : "");
    if (r.done == 3) {
      char path[600];
      snprintf(path, sizeof path, "%s/%s.replay", vdir, sc[k].name);
      FILE* g = fopen(path, "w");
      if (g) {
        fprintf(g, "scenario %s\nmessage %s\npreemptions %d deviations %d\nchoices", sc[k].name, r.msg, r.min_p, r.min_d);
        for (int i = 0; i < r.ncho; i++) {
          if (i && i % 1000 == 0) fprintf(g, "\nmore");
          fprintf(g, " %d", r.cho[i]);
        }
        fprintf(g, "\n");
        fclose(g);
      }
      fprintf(stderr, "VIOL %s %s: %s\n", path, sc[k].name, r.msg);
      bad |= 1;
    }
    if (r.done == 4) {
      fprintf(stderr, "ERROR %s: %s\n", sc[k].name, r.msg);
      bad |= 2;
    }
  }
  fprintf(f, "],\n\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"complete_executions\":%lu,\"distinct_outcomes\":%lu,\"steps\":%lu,\"scenarios_exhausted\":%d,\"scenarios_capped\":%d,\"scenarios_total\":%d,\"wall_s\":%.2f}\n",
          S, T, X, C, O, ST, complete, capped, total, now_s() - t_start);
  if (out) fclose(f);
  return (bad & 1) ? 1 : (bad & 2) ? 3 : 0;
}
}  // namespace mc
