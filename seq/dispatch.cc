// C06: every short history of configuring, (re)initialising and dispatching,
// through translation units with different sets of compiled targets.
#include "dispatch_api.h"
#include "ex.h"
#include "hwy/highway.h"
#include "hwy/per_target.h"
#include "hwy/targets.h"
namespace dtu_all { extern const DTu kTu; }
namespace dtu_test { extern const DTu kTu; }
namespace dtu_few { extern const DTu kTu; }
namespace dtu_map { extern const DTu kTu; }
namespace dtu_base { extern const DTu kTu; }
namespace dtu_static { extern const DTu kTu; }
namespace dtu_scalar { extern const DTu kTu; }
namespace {
const DTu* kT[7] = {&dtu_all::kTu, &dtu_test::kTu, &dtu_few::kTu, &dtu_map::kTu, &dtu_base::kTu, &dtu_static::kTu, &dtu_scalar::kTu};
int cpu_kind;  // 0: everything up to SPR, 1: AVX2, 2: SSE2 only
}  // namespace
#define GP __attribute__((target("general-regs-only"), noinline))
extern "C" GP void st_cpuid(uint32_t leaf, uint32_t sub, uint32_t* o) {
  o[0] = o[1] = o[2] = o[3] = 0;
  if (leaf == 0) {
    o[0] = 0x20;
    o[1] = 0x756e6547; o[2] = 0x6c65746e; o[3] = 0x49656e69;
  } else if (leaf == 1) {
    o[3] = 3u << 25;
    if (cpu_kind < 2) o[2] = 1u | 2u | 1u << 9 | 1u << 12 | 1u << 19 | 1u << 20 | 1u << 25 | 1u << 26 | 1u << 27 | 1u << 28 | 1u << 29;
  } else if (leaf == 0x80000000u) {
    o[0] = 0x80000008u;
  } else if (leaf == 0x80000001u) {
    o[2] = 1u << 5;
  } else if (leaf == 7 && cpu_kind < 2) {
    if (sub == 0) {
      o[0] = 1;
      o[1] = 1u << 3 | 1u << 5 | 1u << 8;
      if (cpu_kind == 0) {
        o[1] |= 3u << 16 | 1u << 28 | 3u << 30;
        o[2] = 2 | 1u << 6 | 31u << 8 | 1u << 14;
        o[3] = 1u << 23;
      }
    } else if (sub == 1 && cpu_kind == 0) {
      o[0] = 1u << 5;
    }
  }
}
extern "C" GP uint64_t st_xgetbv(uint32_t) { return 0xE7; }
namespace {
int64_t detected() {
  const int64_t s = HWY_SCALAR | HWY_EMU128 | HWY_SSE2, a = s | HWY_SSSE3 | HWY_SSE4 | HWY_AVX2;
  return cpu_kind == 2 ? s : cpu_kind == 1 ? a : a | HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
}
// ---- model
struct Model {
  int64_t dis, mock;
  int kind;          // 0 not initialised, 1 initialised with `chosen`, 2 with `chosen` or eff()
  int64_t chosen;
  int64_t eff() const {
    const int64_t t = (mock ? mock : detected()) & ~dis;
    return t ? t : HWY_SSE2;
  }
};
Model M;
int64_t best(const DTu& t, int64_t chosen) {
  // Bits above the dispatchable range are the fallback.
  const int64_t c = chosen & t.targets & ((1ll << (HWY_HIGHEST_TARGET_BIT_X86 + 1)) - 1);
  if (c) return c & -c;
  if (t.targets & HWY_EMU128) return HWY_EMU128;
  if (t.targets & HWY_SCALAR) return HWY_SCALAR;
  return t.stat;
}
const char* nm(int64_t t) { return hwy::TargetName(t); }
bool single(const DTu& t) { return (t.targets & (t.targets - 1)) == 0; }
bool dispatch(int tu, int fn, uint64_t x) {
  const DTu& t = *kT[tu];
  bool ok = true;
  const int64_t got = t.call(fn, x, ok);
  if (!ok) { EX_FAIL("arguments or results changed on the way, %s function %d", t.name, fn); return false; }
  if (single(t)) {  // no table: always the static target, chosen is not touched
    if (got != t.stat) { EX_FAIL("%s: static %s expected, %s ran", t.name, nm(t.stat), nm(got)); return false; }
    return true;
  }
  if (M.kind == 0) { M.kind = 1; M.chosen = M.eff(); }
  const int64_t w = best(t, M.chosen), w2 = M.kind == 2 ? best(t, M.eff()) : w;
  if (got != w && got != w2) { EX_FAIL("%s function %d: %s expected, %s ran", t.name, fn, nm(w), nm(got)); return false; }
  if (t.stat_call() != t.stat) { EX_FAIL("%s: static dispatch ran %s", t.name, nm(t.stat_call())); return false; }
  return true;
}
const int64_t kAll = ~0ll;
const int64_t kAVX3up = HWY_AVX3 | (HWY_AVX3 - 1), kAVX2up = HWY_AVX2 | (HWY_AVX2 - 1);
struct Op { char k; int64_t a; int b; const char* name; };
const Op kOps[] = {
    {'D', 0, 0, "Disable(0)"}, {'D', HWY_AVX3_SPR, 0, "Disable(SPR)"}, {'D', kAVX3up, 0, "Disable(AVX3 and better)"}, {'D', kAVX2up, 0, "Disable(AVX2 and better)"},
    {'D', HWY_SSE4 | HWY_AVX3_DL, 0, "Disable(SSE4|AVX3_DL)"}, {'D', kAll, 0, "Disable(all)"}, {'D', ~HWY_SSSE3, 0, "Disable(all but SSSE3)"},
    {'M', 0, 0, "SetSupported(0)"}, {'M', HWY_SSE2, 0, "SetSupported(SSE2)"}, {'M', HWY_AVX2 | HWY_SSE4 | HWY_SSE2, 0, "SetSupported(AVX2|SSE4|SSE2)"},
    {'M', HWY_AVX3_SPR | HWY_AVX3, 0, "SetSupported(SPR|AVX3)"}, {'M', HWY_SCALAR | HWY_EMU128, 0, "SetSupported(SCALAR|EMU128)"},
    {'M', HWY_AVX10_2_512 | HWY_AVX3_ZEN4 | HWY_SSSE3, 0, "SetSupported(AVX10_2_512|ZEN4|SSSE3)"},
    {'I', 0, 0, "DeInit"}, {'U', 0, 0, "Update(SupportedTargets())"}, {'X', HWY_SSE4 | HWY_SSE2, 0, "Update(SSE4|SSE2)"}, {'X', 0, 0, "Update(0)"},
    {'S', 0, 0, "SupportedTargets()"}, {'G', 0, 0, "SupportedAndGeneratedTargets()"},
    {'C', 0, 0, "all.F0()"}, {'C', 0, 1, "test.FVoid()"}, {'C', 2, 2, "few.FMany()"}, {'C', 3, 4, "map.FT<u8>()"}, {'C', 3, 0, "map.F0()"}, {'C', 4, 3, "base.FRef()"}, {'C', 0, 5, "all.FT<f64>()"},
    {'C', 1, 6, "test.Tm<i32>()"}, {'C', 2, 7, "few pointer F0()"}, {'L', 0, 0, "VectorBytes()"}, {'T', 0, 0, "DispatchedTarget()"}};
constexpr int NOPS = sizeof kOps / sizeof kOps[0];
size_t vec_bytes(int64_t t) { return t < HWY_AVX2 ? 64 : t == HWY_AVX2 ? 32 : 16; }
// per_target.cc compiles all attainable targets.
bool lib(bool bytes) {
  if (M.kind == 0) { M.kind = 1; M.chosen = M.eff(); }
  const int64_t w = best(dtu_test::kTu, M.chosen), w2 = M.kind == 2 ? best(dtu_test::kTu, M.eff()) : w;
  if (bytes) {
    // Baseline targets only know SCALAR's 1-lane vectors if it is compiled.
    const size_t g = hwy::VectorBytes();
    const size_t a = w == HWY_SCALAR ? 1 : vec_bytes(w), b = w2 == HWY_SCALAR ? 1 : vec_bytes(w2);
    if (g != a && g != b) { EX_FAIL("VectorBytes() %d for %s", (int)g, nm(w)); return false; }
    return true;
  }
  const int64_t g = hwy::DispatchedTarget();
  if (g != w && g != w2) { EX_FAIL("DispatchedTarget() %s instead of %s", nm(g), nm(w)); return false; }
  return true;
}
bool apply(const Op& o, uint64_t x) {
  switch (o.k) {
    case 'D': hwy::DisableTargets(o.a); M.dis = o.a; M.kind = 0; break;
    case 'M': hwy::SetSupportedTargetsForTest(o.a); M.mock = o.a; M.kind = 0; break;
    case 'I': hwy::GetChosenTarget().DeInit(); M.kind = 0; break;
    case 'U': hwy::GetChosenTarget().Update(hwy::SupportedTargets()); M.kind = 1; M.chosen = M.eff(); break;
    case 'X': hwy::GetChosenTarget().Update(o.a); M.kind = 1; M.chosen = o.a; break;
    case 'S': case 'G': {
      if (o.k == 'S') {
        const int64_t g = hwy::SupportedTargets();
        if (g != M.eff()) { EX_FAIL("SupportedTargets() %llx instead of %llx", (long long)g, (long long)M.eff()); return false; }
      } else {
        const std::vector<int64_t> v = hwy::SupportedAndGeneratedTargets();
        int64_t all = 0, prev = 0;
        for (int64_t t : v) {
          if (t <= prev || (t & (t - 1))) { EX_FAIL("SupportedAndGeneratedTargets() not single targets, best first"); return false; }
          all |= prev = t;
        }
        if (all != (M.eff() & HWY_TARGETS)) { EX_FAIL("SupportedAndGeneratedTargets() %llx", (long long)all); return false; }
      }
      if (M.kind == 1 && M.chosen != M.eff()) M.kind = 2;  // a query may refresh an explicit choice
      break;
    }
    case 'C': return dispatch((int)o.a, o.b, x);
    case 'L': return lib(true);
    case 'T': return lib(false);
  }
  return true;
}
void reset() {
  hwy::DisableTargets(0);
  hwy::SetSupportedTargetsForTest(0);
  M = Model{0, 0, 0, 0};
}
bool is_call(const Op& o) { return o.k == 'C' || o.k == 'L' || o.k == 'T'; }
bool run(const int* h, int n, bool last_all) {
  reset();
  for (int i = 0; i < n; i++)
    if (!apply(kOps[h[i]], 1000 + i)) return false;
  const bool init = hwy::GetChosenTarget().IsInitialized();
  // After a configuration change the state is uninitialised until dispatch.
  if (n && M.kind == 0 && init && kOps[h[n - 1]].k != 'S' && kOps[h[n - 1]].k != 'G') {
    bool q = false;  // a query may initialise
    for (int i = 0; i < n; i++) {
      const char k = kOps[h[i]].k;
      if (k == 'S' || k == 'G') q = true;
      if (k == 'D' || k == 'M' || k == 'I') q = false;
    }
    if (!q) { EX_FAIL("initialised although nothing was dispatched since the last change"); return false; }
  }
  if (M.kind != 0 && !init) { EX_FAIL("not initialised after a dispatched call"); return false; }
  if (last_all) {
    // Every kind of call, twice, in every unit.
    for (int r = 0; r < 2; r++)
      for (int t = 0; t < 7; t++)
        for (int f = 0; f < kT[t]->nfn; f++)
          if (!dispatch(t, f, 77 + f)) return false;
    if (!lib(true) || !lib(false)) return false;
  }
  return true;
}
void name(const int* h, int n) {
  std::string s = cpu_kind == 0 ? "cpu SPR: " : cpu_kind == 1 ? "cpu AVX2: " : "cpu SSE2: ";
  for (int i = 0; i < n; i++) s += (i ? "; " : "") + std::string(kOps[h[i]].name);
  ex::at("%.560s", s.c_str());
}
void all() {
  for (cpu_kind = 0; cpu_kind < 3; cpu_kind++) {
    char nmb[40];
    snprintf(nmb, sizeof nmb, "histories_cpu%d", cpu_kind);
    if (!ex::enter(nmb)) continue;
    const int depth = ex::thorough() ? 5 : 4;
    int h[8];
    for (int n = 0; n <= depth; n++) {
      uint64_t total = 1;
      for (int i = 0; i < n; i++) total *= NOPS;
      for (uint64_t c = 0; c < total && !ex::many(); c++) {
        uint64_t q = c;
        for (int i = 0; i < n; i++) { h[i] = (int)(q % NOPS); q /= NOPS; }
        // The final sweep of all calls is done where the last step is not a call.
        name(h, n);
        run(h, n, n <= 3);
        ex::add();
      }
    }
    ex::sample("all histories of up to %d of %d operations", depth, NOPS);
    ex::group_end();
  }
  cpu_kind = 0;
  // Every subset of targets disabled / supported, each dispatched function.
  if (ex::enter("masks")) {
    const int64_t bits[] = {HWY_AVX10_2_512, HWY_AVX3_SPR, HWY_AVX10_2, HWY_AVX3_ZEN4, HWY_AVX3_DL, HWY_AVX3, HWY_AVX2, HWY_SSE4, HWY_SSSE3, HWY_SSE2, HWY_EMU128, HWY_SCALAR};
    for (int s = 0; s < 1 << 12; s++)
      for (int mode = 0; mode < 3; mode++) {
        int64_t m = 0;
        for (int i = 0; i < 12; i++) if (s >> i & 1) m |= bits[i];
        ex::at("%s %llx", mode == 0 ? "disable" : mode == 1 ? "support" : "update", (long long)m);
        for (int t = 0; t < 7; t++)
          for (int f = 0; f < kT[t]->nfn; f++) {
            reset();
            if (mode == 0) { hwy::DisableTargets(m); M.dis = m; }
            if (mode == 1) { hwy::SetSupportedTargetsForTest(m); M.mock = m; }
            if (mode == 2) { hwy::GetChosenTarget().Update(m); M.kind = 1; M.chosen = m; }
            if (!dispatch(t, f, s)) break;
            if (!dispatch(t, f, ~s)) break;
            ex::add();
          }
        reset();
      }
    ex::sample("4096 subsets of 12 targets, disabled, supported or chosen");
    ex::group_end();
  }
}
}  // namespace
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
