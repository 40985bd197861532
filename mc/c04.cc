// C04: futex and spin waits (hwy/contrib/thread_pool/{futex,spin}.h) under all
// interleavings, and spin-method detection under all relevant CPUID answers.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <atomic>
#include "mc.h"
#include "hwy/contrib/thread_pool/futex.h"
#include "hwy/contrib/thread_pool/spin.h"

#define NOINST __attribute__((no_sanitize("thread"), noinline))

namespace {
// Scenario args: 0 kind (0 block, 1..3 UntilDifferent monitorx/umonitor/pause,
// 4..6 UntilEqual same order), 1 waiters, 2 number of stores, 3 packed store
// values (base 4), 4 faults, 5 base (value of "prev"), 6 second phase (waiters
// wait again for the next value)
struct G {
  int kind, waiters, nst, vals[4], phase2, stale;
  uint32_t prev;
  int first[5];    // index of the first store of each symbol
  int done;        // stores performed (writer order)
  uint32_t hist[8];
};
G g;
struct Shared {
  alignas(64) std::atomic<uint32_t> word;
  alignas(64) int payload[8];
  int sink[4];
};
Shared* sh;

NOINST uint32_t val(int s) { return s == 0 ? g.prev : s == 1 ? g.prev + 1 : s == 2 ? g.prev - 1 : 0x80000000u ^ g.prev; }
NOINST int symbol(uint32_t v) {
  for (int s = 0; s < 4; s++) if (val(s) == v) return s;
  return -1;
}
NOINST void setup(const int* a) {
  memset(&g, 0, sizeof g);
  g.kind = a[0];
  g.waiters = a[1];
  g.nst = a[2];
  int p = a[3];
  for (int i = 0; i < g.nst; i++) { g.vals[i] = p % 4; p /= 4; }
  g.prev = (uint32_t)a[5];
  g.phase2 = a[6];
  g.stale = a[7];
  for (int s = 0; s < 4; s++) {
    g.first[s] = -1;
    for (int i = g.nst - 1; i >= 0; i--) if (g.vals[i] == s) g.first[s] = i;
  }
  g.hist[0] = g.prev;
}
NOINST void note_store(int i) { g.hist[i + 1] = val(g.vals[i]); g.done = i + 1; }
// With stale reads (C++ memory model), an older value may be returned.
NOINST int held_from() { return g.stale ? 0 : g.done; }
// v must be a value the word held at some time since `from` stores were done.
NOINST void check_value(uint32_t v, int from, uint32_t unwanted, bool equal, uint32_t expected) {
  bool held = false;
  for (int i = from; i <= g.done; i++) if (g.hist[i] == v) held = true;
  // the store about to be performed may already be visible
  if (g.done < g.nst && val(g.vals[g.done]) == v) held = true;
  mc::check(held, "wait returned %#lx, which the word did not hold since the call", (long)v);
  if (equal) mc::check(v == expected, "UntilEqual returned for another value");
  else mc::check(v != unwanted, "wait returned the value %#lx it was to differ from", (long)v);
  mc::observe(v - g.prev);
}
// -1 if the word held v from the start: then no store need be visible.
NOINST int first_index(uint32_t v) { int s = symbol(v); return s < 0 || v == g.prev ? -1 : g.first[s]; }
NOINST uint32_t last_value() { return g.nst ? val(g.vals[g.nst - 1]) : g.prev; }

template <class Spin>
uint32_t spin_wait(const Spin& spin, uint32_t prev, bool equal) {
  if (equal) {
    spin.UntilEqual(prev, sh->word);
    return prev;
  }
  return spin.UntilDifferent(prev, sh->word).current;
}
uint32_t do_wait(uint32_t v, bool* equal) {
  *equal = g.kind >= 4;
  switch (g.kind) {
    case 0: return hwy::BlockUntilDifferent(v, sh->word);
    case 1: case 4: return spin_wait(hwy::SpinMonitorX(), v, *equal);
    case 2: case 5: return spin_wait(hwy::SpinUMonitor(), v, *equal);
    default: return spin_wait(hwy::SpinPause(), v, *equal);
  }
}
void* waiter(void* arg) {
  const int id = (int)(intptr_t)arg;
  bool equal;
  uint32_t prev = g.prev;
  for (int ph = 0; ph <= g.phase2; ph++) {
    const int from = held_from();
    const uint32_t want = g.kind >= 4 ? last_value() : prev;
    uint32_t v = do_wait(want, &equal);
    check_value(v, from, want, equal, want);
    // Data written before the store of v must be visible: the race detector
    // and this read check it.
    const int k = first_index(v);
    if (k >= 0) {
      const int p = sh->payload[k];
      mc::check(p == 100 + k, "data stored before the value is not visible");
      sh->sink[id] = p;
    }
    prev = v;
    // A second wait is only certain to return if the final value differs.
    if (equal || v == last_value()) break;
  }
  return nullptr;
}
void body(const int* a) {
  setup(a);
  mc::env().futex_faults = mc::env().monitor_faults = a[4] != 0;
  sh = new Shared();
  sh->word.store(g.prev);
  pthread_t th[4];
  mc::window_begin();
  for (int i = 0; i < g.waiters; i++) pthread_create(&th[i], nullptr, waiter, (void*)(intptr_t)i);
  for (int i = 0; i < g.nst; i++) {
    sh->payload[i] = 100 + i;
    const uint32_t v = val(g.vals[i]);
    sh->word.store(v, std::memory_order_release);
    note_store(i);
    if (g.kind == 0) hwy::WakeAll(sh->word);
  }
  for (int i = 0; i < g.waiters; i++) pthread_join(th[i], nullptr);
  mc::window_end();
  delete sh;
}

// ---- detection
struct Cpu { int vendor; uint32_t maxl, maxx; bool mx, wp; uint32_t noise; bool intel_oor; };
Cpu cpu;
NOINST void cpuid_raw(uint32_t leaf, uint32_t sub, uint32_t* o) {
  static const char* V[] = {"GenuineIntel", "AuthenticAMD", "HygonGenuine", "AuthenticXMD", "GenuineAMD  "};
  memset(o, 0, 16);
  if (leaf == 0) {
    o[0] = cpu.maxl;
    memcpy(&o[1], V[cpu.vendor], 4);
    memcpy(&o[3], V[cpu.vendor] + 4, 4);
    memcpy(&o[2], V[cpu.vendor] + 8, 4);
  } else if (leaf == 0x80000000u) {
    o[0] = cpu.maxx;
  } else if (leaf == 0x80000001u) {
    for (int i = 0; i < 4; i++) o[i] = cpu.noise;
    o[2] = (o[2] & ~(1u << 29)) | (cpu.mx ? 1u << 29 : 0);
  } else if (leaf == 7) {
    for (int i = 0; i < 4; i++) o[i] = cpu.noise;
    o[2] = (o[2] & ~(1u << 5)) | (cpu.wp ? 1u << 5 : 0);
    if (sub != 0) memset(o, 0xFF, 16);
  } else {
    for (int i = 0; i < 4; i++) o[i] = cpu.noise;
  }
}
NOINST void cpuid_model(uint32_t leaf, uint32_t sub, uint32_t* o) {
  const bool oor = leaf >= 0x80000000u ? leaf > cpu.maxx && leaf != 0x80000000u : leaf > cpu.maxl;
  if (oor) {
    // Intel returns the highest basic leaf, AMD zeros; be nasty for Intel.
    memset(o, cpu.vendor == 1 || cpu.vendor == 2 ? 0 : 0xFF, 16);
    return;
  }
  cpuid_raw(leaf, sub, o);
}
int g_warned;
void on_warn(const char*, int, const char*) { g_warned++; }
void detect(const int*) {
  mc::env().cpuid = cpuid_model;
  hwy::SetWarnFunc(on_warn);
  const uint32_t maxls[] = {0, 1, 6, 7, 8, 0x16};
  const uint32_t maxxs[] = {0x80000000u, 0x80000001u, 0x80000008u};
  for (int vendor = 0; vendor < 5; vendor++)
    for (uint32_t maxl : maxls)
      for (uint32_t maxx : maxxs)
        for (int bits = 0; bits < 8; bits++)
          for (int dis = 0; dis < 16; dis++) {
            cpu = Cpu{vendor, maxl, maxx, (bits & 1) != 0, (bits & 2) != 0, (bits & 4) ? ~0u : 0u, false};
            g_warned = 0;
            const hwy::SpinType t = hwy::DetectSpin(dis);
            const bool mx_ok = cpu.mx && maxx >= 0x80000001u;
            const bool um_ok = cpu.wp && maxl >= 7;
            const int ti = (int)t;
            mc::check(ti >= 1 && ti <= 3, "DetectSpin returned %d", ti);
            if (t == hwy::SpinType::kMonitorX) mc::check(mx_ok, "MonitorX chosen without CPU support (vendor %d max %x/%x)", vendor, maxl, maxx);
            if (t == hwy::SpinType::kUMonitor) mc::check(um_ok, "UMonitor chosen without CPU support (vendor %d max %x/%x)", vendor, maxl, maxx);
            if (t != hwy::SpinType::kPause) mc::check(!(dis & (1 << ti)), "disabled spin type %d chosen (mask %d)", ti, dis);
            mc::observe((uint64_t)t * 100 + dis);
          }
}
}  // namespace

int main(int argc, char** argv) {
  bool thorough = false;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) thorough = true;
  mc::Scenario* v = (mc::Scenario*)calloc(4000, sizeof(mc::Scenario));
  int n = 0;
  const char* kn[] = {"block", "dmonx", "dumon", "dpause", "emonx", "eumon", "epause"};
  for (int kind = 0; kind < 7; kind++)
    for (int w = 1; w <= 3; w++)
      for (int len = 0; len <= (w == 1 ? 3 : w == 2 ? 2 : 1); len++) {
        int combos = 1;
        for (int i = 0; i < len; i++) combos *= 4;
        for (int c = 0; c < combos; c++) {
          int last = 0, q = c;
          bool has3 = false;
          for (int i = 0; i < len; i++) { last = q % 4; q /= 4; has3 |= last == 3; }
          // termination is only promised if the last value persists as awaited
          if (kind < 4 && (len == 0 || last == 0)) continue;
          if (has3 && len > 2 && !thorough) continue;
          for (int faults = 0; faults < 2; faults++) {
            if (faults && kind != 0 && kind % 3 == 0) continue;  // pause has none
            for (int ph = 0; ph < (kind < 4 && w == 1 ? 2 : 1); ph++) {
              mc::Scenario& s = v[n++];
              char nm[100];
              snprintf(nm, sizeof nm, "%s_w%d_len%d_c%d%s%s", kn[kind], w, len, c, faults ? "_faults" : "", ph ? "_again" : "");
              s.name = strdup(nm);
              s.body = body;
              const uint32_t bases[] = {0u, 7u, 0xFFFFFFFFu, 0x7FFFFFFFu};
              int a[8] = {kind, w, len, c, faults, (int)bases[(c + len) % 4], ph, 0};
              s.preempt = w == 3 ? (thorough ? 2 : 1) : -1;
              s.data = faults ? 2 : kind % 3 ? 0 : 1;
              a[7] = s.data > 0;
              memcpy(s.args, a, sizeof a);
              s.cap_s = thorough ? 300 : 10;
            }
          }
        }
      }
  mc::Scenario& s = v[n++];
  s.name = "detect_spin";
  s.body = detect;
  s.preempt = 0;
  s.cap_s = 60;
  return mc::run(argc, argv, v, n, mc::kAssert | mc::kDeadlock | mc::kCrash | mc::kRace);
}
