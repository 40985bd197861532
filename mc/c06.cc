// C06: concurrent first calls under all interleavings: every call runs the best
// enabled target, whatever other threads are doing, and without data races.
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define HWY_DISABLED_TARGETS (HWY_SSSE3 | HWY_AVX3_DL)
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "c06.cc"
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
HWY_BEFORE_NAMESPACE();
namespace tu {
namespace HWY_NAMESPACE {
int64_t F0() { return HWY_TARGET; }
int64_t F2(int64_t* x, int y) { *x += y; return HWY_TARGET; }
template <typename T> int64_t FT(T x, T* y) { *y = x; return HWY_TARGET; }
}  // namespace HWY_NAMESPACE
}  // namespace tu
HWY_AFTER_NAMESPACE();
#if HWY_ONCE
#include "mc.h"
#include "hwy/per_target.h"
#include "hwy/targets.h"
#define NOINST __attribute__((no_sanitize("thread"), noinline))
namespace tu {
HWY_EXPORT(F0);
HWY_EXPORT(F2);
template <typename T> int64_t CallT(T v, bool& ok) {
  HWY_EXPORT_T(Table1, FT<T>);
  T y = 0;
  const int64_t r = HWY_DYNAMIC_DISPATCH_T(Table1)(v, &y);
  ok = y == v;
  return r;
}
int cpu_kind;
NOINST void Cpuid(uint32_t leaf, uint32_t sub, uint32_t* o) {
  o[0] = o[1] = o[2] = o[3] = 0;
  if (leaf == 0) { o[0] = 0x20; o[1] = 0x756e6547; o[2] = 0x6c65746e; o[3] = 0x49656e69; }
  if (leaf == 1) {
    o[3] = 3u << 25;
    if (cpu_kind < 2) o[2] = 1u | 2u | 1u << 9 | 1u << 12 | 1u << 19 | 1u << 20 | 1u << 25 | 1u << 26 | 1u << 27 | 1u << 28 | 1u << 29;
  }
  if (leaf == 0x80000000u) o[0] = 0x80000008u;
  if (leaf == 0x80000001u) o[2] = 1u << 5;
  if (leaf == 7 && sub == 0 && cpu_kind < 2) {
    o[0] = 1;
    o[1] = 1u << 3 | 1u << 5 | 1u << 8;
    if (cpu_kind == 0) { o[1] |= 3u << 16 | 1u << 28 | 3u << 30; o[2] = 2 | 1u << 6 | 31u << 8 | 1u << 14; o[3] = 1u << 23; }
  }
  if (leaf == 7 && sub == 1 && cpu_kind == 0) o[0] = 1u << 5;
}
NOINST uint64_t Xgetbv() { return 0xE7; }
int64_t detected() {
  const int64_t s = HWY_SCALAR | HWY_EMU128 | HWY_SSE2, a = s | HWY_SSSE3 | HWY_SSE4 | HWY_AVX2;
  return cpu_kind == 2 ? s : cpu_kind == 1 ? a : a | HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
}
const int64_t kDis[] = {0, HWY_AVX3_SPR, HWY_AVX3 | (HWY_AVX3 - 1), HWY_AVX2 | (HWY_AVX2 - 1), ~0ll};
const int64_t kMock[] = {0, HWY_SSE2, HWY_SSE4 | HWY_SSE2, HWY_AVX2 | HWY_SSE4};
int64_t eff_;
NOINST int64_t best(int64_t compiled) {
  const int64_t c = eff_ & compiled & 0x7fff;
  return c ? c & -c : HWY_STATIC_TARGET;
}
NOINST size_t bytes() {
  const int64_t c = eff_ & 0x7fff, t = c ? c & -c : HWY_STATIC_TARGET;
  return t < HWY_AVX2 ? 64 : t == HWY_AVX2 ? 32 : 16;
}
struct Prog { int n; int op[3]; };
Prog progs[4];
NOINST void ran(int op, int64_t got, bool ok) {
  mc::observe((uint64_t)got * 8 + op);
  mc::check(ok, "arguments or results were changed by the first call");
  mc::check(got == best(HWY_TARGETS), "%s ran although the best enabled target is %s", hwy::TargetName(got), hwy::TargetName(best(HWY_TARGETS)));
}
void* thread(void* p) {
  const Prog* pr = (const Prog*)p;
  for (int i = 0; i < pr->n; i++) {
    switch (pr->op[i]) {
      case 0: ran(0, HWY_DYNAMIC_DISPATCH(F0)(), true); break;
      case 1: {
        int64_t x = 40;
        const int64_t t = HWY_DYNAMIC_DISPATCH(F2)(&x, 2);
        ran(1, t, x == 42);
        break;
      }
      case 2: {
        bool ok = false;
        const int64_t t = CallT<float>(1.5f, ok);
        ran(2, t, ok);
        break;
      }
      case 3: {
        const int64_t s = hwy::SupportedTargets();
        mc::check(s == eff_, "SupportedTargets() %llx instead of %llx", (long long)s, (long long)eff_);
        break;
      }
      case 4: {
        const size_t b = hwy::VectorBytes();
        mc::check(b == bytes(), "VectorBytes() %d", (int)b);
        break;
      }
    }
  }
  return nullptr;
}
void body(const int* a) {
  mc::env().cpuid = &Cpuid;
  mc::env().xgetbv = &Xgetbv;
  cpu_kind = a[0];
  const int64_t dis = kDis[a[1]], mock = kMock[a[2]];
  if (a[6]) {  // a call before the change of settings
    bool ok;
    CallT<float>(1.0f, ok);
  }
  hwy::DisableTargets(dis);
  hwy::SetSupportedTargetsForTest(mock);
  eff_ = (mock ? mock : detected()) & ~dis;
  if (!eff_) eff_ = HWY_STATIC_TARGET;
  const int nt = a[3];
  for (int t = 0; t < nt; t++) {
    progs[t].n = a[5];
    int c = a[4] >> (8 * t) & 255;
    for (int i = 0; i < a[5]; i++) { progs[t].op[i] = c % 5; c /= 5; }
  }
  pthread_t th[4];
  mc::window_begin();
  for (int t = 0; t < nt; t++) pthread_create(&th[t], nullptr, thread, &progs[t]);
  for (int t = 0; t < nt; t++) pthread_join(th[t], nullptr);
  mc::window_end();
  mc::check(HWY_DYNAMIC_DISPATCH(F0)() == best(HWY_TARGETS), "call after the first ones runs another target");
}
}  // namespace tu
int main(int argc, char** argv) {
  bool thorough = false;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--thorough")) thorough = true;
  mc::Scenario* v = (mc::Scenario*)calloc(20000, sizeof(mc::Scenario));
  int n = 0;
  for (int nt = 2; nt <= 3; nt++)
    for (int len = 1; len <= (nt == 2 ? 2 : thorough ? 2 : 1); len++) {
      const int np = len == 1 ? 5 : 25;
      for (int cfg = 0; cfg < 8; cfg++)
        for (int p0 = 0; p0 < np; p0++)
          for (int p1 = p0; p1 < np; p1++)
            for (int p2 = nt == 3 ? p1 : 0; p2 < (nt == 3 ? np : 1); p2++) {
              if (len == 2 && cfg > 3 && !thorough) continue;
              if (len == 2 && nt == 3 && cfg != 1) continue;
              static const int kC[8][4] = {{0, 0, 0, 0}, {0, 1, 0, 1}, {0, 3, 0, 0}, {1, 4, 0, 1}, {0, 2, 0, 0}, {2, 0, 0, 0}, {0, 0, 2, 1}, {0, 3, 3, 0}};
              const int* c = kC[cfg];
              mc::Scenario& s = v[n++];
              char nm[80];
              snprintf(nm, sizeof nm, "t%d_cpu%d_dis%d_mock%d_%d_%d_%d_len%d%s", nt, c[0], c[1], c[2], p0, p1, p2, len, c[3] ? "_again" : "");
              s.name = strdup(nm);
              s.body = tu::body;
              int a[8] = {c[0], c[1], c[2], nt, p0 | p1 << 8 | p2 << 16, len, c[3], 0};
              memcpy(s.args, a, sizeof a);
              s.preempt = -1;
              s.data = 2;
              s.cap_s = 30;
            }
    }
  return mc::run(argc, argv, v, n, mc::kAssert | mc::kDeadlock | mc::kCrash | mc::kRace);
}
#endif
