// C07: the supported set for every modelled processor and operating system.
// The CPUID and XGETBV instructions of hwy/targets.cc are answered by the
// model below; the oracle is the table of extensions each target needs.
#include <string.h>
#include "ex.h"
#include "hwy/highway.h"
#include "hwy/targets.h"
#include "hwy/per_target.h"

namespace {
// ---------------------------------------------------------------- processor
enum Reg { R1C, R1D, RXC, R7B, R7C, R7D, R71A, R71D, R24B, NREG };
struct Cpu {
  uint32_t r[NREG];
  uint32_t max_leaf, max_ext;
  int vendor;  // 0 Intel, 1 AMD, 2.. almost AMD
  uint32_t xcr0;
  int beyond;  // leaves out of range: 0 zeros, 1 ones, 2 highest basic leaf
  uint32_t noise;  // value of registers / leaves without a meaning here
};
Cpu C;
int bad_xgetbv, bad_index;
const uint32_t kVendor[6][3] = {  // ebx ecx edx
    {0x756e6547, 0x6c65746e, 0x49656e69}, {0x68747541, 0x444d4163, 0x69746e65},
    {0x68747541, 0x444d4163, 0x49656e69}, {0x68747541, 0x6c65746e, 0x69746e65},
    {0x756e6547, 0x444d4163, 0x69746e65}, {0x6f677948, 0x656e6975, 0x6e65476e}};

#define GP __attribute__((target("general-regs-only"), noinline))
GP void basic(uint32_t leaf, uint32_t sub, uint32_t* o) {
  for (int i = 0; i < 4; i++) o[i] = C.noise;
  switch (leaf) {
    case 0:
      o[0] = C.max_leaf;
      for (int i = 0; i < 3; i++) o[1 + i] = kVendor[C.vendor][i];
      return;
    case 1:
      o[2] = C.r[R1C];
      o[3] = C.r[R1D];
      return;
    case 7:
      if (sub == 0) {
        o[0] = 1;
        o[1] = C.r[R7B];
        o[2] = C.r[R7C];
        o[3] = C.r[R7D];
      } else if (sub == 1) {
        o[0] = C.r[R71A];
        o[3] = C.r[R71D];
      } else {
        for (int i = 0; i < 4; i++) o[i] = 0;
      }
      return;
    case 0x24:
      if (sub == 0) o[1] = C.r[R24B];
      return;
  }
}
}  // namespace

extern "C" GP void st_cpuid(uint32_t leaf, uint32_t sub, uint32_t* o) {
  const bool ext = leaf >= 0x80000000u;
  if (ext ? leaf == 0x80000000u || leaf <= C.max_ext : leaf <= C.max_leaf) {
    if (!ext) return basic(leaf, sub, o);
    for (int i = 0; i < 4; i++) o[i] = C.noise;
    if (leaf == 0x80000000u) o[0] = C.max_ext;
    if (leaf == 0x80000001u) o[2] = C.r[RXC];
    return;
  }
  if (C.beyond == 2) return basic(C.max_leaf, sub, o);
  for (int i = 0; i < 4; i++) o[i] = C.beyond ? ~0u : 0;
}
extern "C" GP uint64_t st_xgetbv(uint32_t index) {
  if (!(C.r[R1C] >> 27 & 1)) bad_xgetbv++;  // #UD on real hardware
  if (index != 0) bad_index++;
  return C.xcr0;
}

namespace {
// ---------------------------------------------------------------- oracle
struct Feat { const char* name; int reg, bit; };
const Feat kF[] = {
    {"sse", R1D, 25}, {"sse2", R1D, 26}, {"sse3", R1C, 0}, {"ssse3", R1C, 9}, {"sse4.1", R1C, 19}, {"sse4.2", R1C, 20},
    {"pclmul", R1C, 1}, {"aes", R1C, 25},
    {"avx", R1C, 28}, {"avx2", R7B, 5}, {"lzcnt", RXC, 5}, {"bmi", R7B, 3}, {"bmi2", R7B, 8}, {"fma", R1C, 12}, {"f16c", R1C, 29},
    {"avx512f", R7B, 16}, {"avx512dq", R7B, 17}, {"avx512cd", R7B, 28}, {"avx512bw", R7B, 30}, {"avx512vl", R7B, 31},
    {"avx512vbmi", R7C, 1}, {"avx512vbmi2", R7C, 6}, {"gfni", R7C, 8}, {"vaes", R7C, 9}, {"vpclmulqdq", R7C, 10},
    {"avx512vnni", R7C, 11}, {"avx512bitalg", R7C, 12}, {"avx512vpopcntdq", R7C, 14},
    {"avx512bf16", R71A, 5}, {"avx512fp16", R7D, 23}, {"avx10", R71D, 19}, {"apx", R71D, 21},
    {"xsave", R1C, 26}, {"osxsave", R1C, 27}};
constexpr int NF = sizeof kF / sizeof kF[0];
int feat(const char* n) {
  for (int i = 0; i < NF; i++) if (!strcmp(kF[i].name, n)) return i;
  fprintf(stderr, "unknown extension %s\n", n);
  abort();
}
uint64_t set_of(const char* list) {
  uint64_t m = 0;
  std::string s(list);
  for (size_t p = 0; p < s.size();) {
    size_t e = s.find(',', p);
    if (e == std::string::npos) e = s.size();
    std::string w = s.substr(p, e - p);
    if (w != "evex512" && w != "no-evex512" && w.compare(0, 7, "avx10.2") && !w.empty()) m |= 1ull << feat(w.c_str());
    p = e + 1;
  }
  return m;
}
struct Tgt { int64_t bit; uint64_t need; };
uint64_t N_SSE2, N_SSSE3, N_SSE4, N_AVX2, N_AVX3, N_DL, N_ZEN4, N_SPR, N_AVX10, F_XSAVE;
void init_sets() {
  N_SSE2 = set_of("sse,sse2");
  N_SSSE3 = N_SSE2 | set_of("sse3,ssse3");
  N_SSE4 = N_SSSE3 | set_of("sse4.1,sse4.2,pclmul,aes");
  N_AVX2 = N_SSE4 | set_of("avx,avx2,lzcnt");
#ifndef HWY_DISABLE_BMI2_FMA
  N_AVX2 |= set_of("bmi,bmi2,fma");
#endif
#ifndef HWY_DISABLE_F16C
  N_AVX2 |= set_of("f16c");
#endif
  N_AVX3 = N_AVX2 | set_of("avx512f,avx512vl,avx512dq,avx512bw,avx512cd");
  N_DL = N_AVX3 | set_of("avx512vnni,vpclmulqdq,avx512vbmi,avx512vbmi2,vaes,avx512vpopcntdq,avx512bitalg,gfni");
  N_ZEN4 = N_DL | set_of("avx512bf16");
  N_SPR = N_ZEN4 | set_of("avx512fp16");
  N_AVX10 = N_AVX2 | set_of("avx10,apx,vpclmulqdq,vaes,gfni");
  F_XSAVE = set_of("xsave,osxsave");
}
// Extensions really reported by the modelled processor.
uint64_t reported() {
  uint64_t m = 0;
  for (int i = 0; i < NF; i++) {
    const int r = kF[i].reg;
    const bool leaf_ok = r == RXC ? C.max_ext >= 0x80000001u : r == R1C || r == R1D ? C.max_leaf >= 1 : C.max_leaf >= 7;
    if (leaf_ok && (C.r[r] >> kF[i].bit & 1)) m |= 1ull << i;
  }
  return m;
}
int64_t expected() {
  const uint64_t f = reported();
  auto has = [&](uint64_t n) { return (f & n) == n; };
  int64_t e = HWY_SCALAR | HWY_EMU128 | HWY_SSE2;
  if (has(N_SSSE3)) e |= HWY_SSSE3;
  if (has(N_SSE4)) e |= HWY_SSE4;
  const bool os_ymm = has(F_XSAVE) && (C.xcr0 & 6) == 6;
  const bool os_zmm = os_ymm && (C.xcr0 & 0xE0) == 0xE0;
  if (os_ymm && has(N_AVX2)) e |= HWY_AVX2;
  if (os_zmm) {
    if (has(N_AVX3)) e |= HWY_AVX3;
    if (has(N_DL)) e |= HWY_AVX3_DL;
    if (has(N_SPR)) e |= HWY_AVX3_SPR;
    if (has(N_AVX10) && C.max_leaf >= 0x24) {
      const uint32_t ver = C.r[R24B] & 0xFF;
      const bool z = ver >= 1 && (C.r[R24B] >> 18 & 1);
      if (z) e |= HWY_AVX3 | HWY_AVX3_DL | HWY_AVX3_SPR;
      if (ver >= 2) e |= HWY_AVX10_2;
      if (ver >= 2 && z) e |= HWY_AVX10_2_512;
    }
    if (C.vendor == 1 && has(N_ZEN4)) e |= HWY_AVX3_ZEN4;
  }
  return e;
}
void name_case() {
  ex::at("1c=%08x 1d=%08x 7b=%08x 7c=%08x 7d=%08x 71a=%08x 71d=%08x 24b=%08x x1c=%08x xcr0=%x max=%x ext=%x vendor=%d beyond=%d noise=%x",
         C.r[R1C], C.r[R1D], C.r[R7B], C.r[R7C], C.r[R7D], C.r[R71A], C.r[R71D], C.r[R24B], C.r[RXC], C.xcr0, C.max_leaf, C.max_ext, C.vendor, C.beyond, C.noise);
}
int64_t seen[64];
int nseen;
void run_one() {
  const int64_t want = expected();
  bad_xgetbv = bad_index = 0;
  const int64_t got = hwy::SupportedTargets();
  ex::add();
  bool nw = true;
  for (int i = 0; i < nseen; i++) if (seen[i] == got) nw = false;
  if (nw && nseen < 64) seen[nseen++] = got;
  if (HWY_LIKELY(got == want && !bad_xgetbv && !bad_index)) return;
  if (ex::many()) return;
  name_case();
  if (got != want) {
    std::string extra, miss;
    for (int b = 0; b < 63; b++) {
      if ((got & ~want) >> b & 1) extra += std::string(" ") + hwy::TargetName(1ll << b);
      if ((want & ~got) >> b & 1) miss += std::string(" ") + hwy::TargetName(1ll << b);
    }
    EX_FAIL("reported but not usable:%s; usable but not reported:%s", extra.c_str(), miss.c_str());
  }
  if (bad_xgetbv) EX_FAIL("XGETBV executed although OSXSAVE is clear");
  if (bad_index) EX_FAIL("XGETBV of another register than XCR0");
}
void set_feats(uint64_t f) {
  memset(C.r, 0, sizeof C.r);
  for (int i = 0; i < NF; i++) if (f >> i & 1) C.r[kF[i].reg] |= 1u << kF[i].bit;
}
void full() {
  memset(&C, 0, sizeof C);
  C.max_leaf = 0x24;
  C.max_ext = 0x80000008u;
  C.xcr0 = 0xE7;
  C.r[R24B] = 2 | 1u << 18;
}
const uint64_t kAllF = (1ull << NF) - 1;
// Relevant XCR0 states: all 32 combinations of bits 1,2,5,6,7 (others noise).
uint32_t xcr(int i) { return 1u | (i & 1) << 1 | (i & 2) << 1 | (i & 4) << 3 | (i & 8) << 3 | (i & 16) << 3; }
const uint32_t kV10[] = {0, 1, 2, 3, 255, 1u << 18, 1u | 1u << 18, 2u | 1u << 18, 3u | 1u << 18, 0x100, 0xFF00u | 1u << 18, 0xFFFFFFFFu, 1u | 3u << 16, 2u | 3u << 16};
// f with every subset of at most k features flipped.
template <class F> void flips(uint64_t f, int k, int from, const F& fn) {
  fn(f);
  if (!k) return;
  for (int i = from; i < NF; i++) flips(f ^ (1ull << i), k - 1, i + 1, fn);
}
std::vector<std::pair<const char*, uint64_t>> profiles() {
  return {{"none", 0}, {"sse2", N_SSE2}, {"ssse3", N_SSSE3}, {"sse4", N_SSE4}, {"avx2", N_AVX2 | F_XSAVE}, {"avx3", N_AVX3 | F_XSAVE},
          {"avx3_dl", N_DL | F_XSAVE}, {"zen4", N_ZEN4 | F_XSAVE}, {"spr", N_SPR | F_XSAVE}, {"avx10", N_AVX10 | F_XSAVE}, {"all", kAllF}};
}
void all() {
  init_sets();
  // The attributes the code is compiled with must be covered by the table.
  if (ex::enter("target_attributes")) {
    struct { const char* s; uint64_t need; const char* n; } t[] = {
        {HWY_TARGET_STR_SSE2, N_SSE2, "SSE2"}, {HWY_TARGET_STR_SSSE3, N_SSSE3, "SSSE3"}, {HWY_TARGET_STR_SSE4, N_SSE4, "SSE4"},
        {HWY_TARGET_STR_AVX2, N_AVX2, "AVX2"}, {HWY_TARGET_STR_AVX3, N_AVX3, "AVX3"}, {HWY_TARGET_STR_AVX3_DL, N_DL, "AVX3_DL"},
        {HWY_TARGET_STR_AVX3_ZEN4, N_ZEN4, "AVX3_ZEN4"}, {HWY_TARGET_STR_AVX3_SPR, N_SPR, "AVX3_SPR"}};
    for (auto& x : t) {
      const uint64_t s = set_of(x.s);
      ex::add();
      ex::at("%s", x.n);
      for (int i = 0; i < NF; i++)
        if ((s & ~x.need) >> i & 1) EX_FAIL("code is compiled for %s, which is not required before it is chosen", kF[i].name);
    }
    ex::group_end();
  }
  for (auto& p : profiles()) {
    char nm[64];
    snprintf(nm, sizeof nm, "features_%s", p.first);
    if (ex::enter(nm)) {
      full();
      nseen = 0;
      const int k = ex::thorough() ? 4 : 3;
      for (int v = 0; v < 2; v++)
        for (uint32_t v10 : {2u | 1u << 18, 2u, 1u | 1u << 18, 1u}) {
          if (strcmp(p.first, "all") && strcmp(p.first, "avx10") && v10 != (2u | 1u << 18)) continue;
          for (int x : {31, 3, 30, 29, 27, 23, 15, 0}) {
            C.vendor = v;
            C.xcr0 = xcr(x);
            flips(p.second, x == 31 ? k : k - 1, 0, [&](uint64_t f) { set_feats(f); C.r[R24B] = v10; run_one(); });
          }
        }
      ex::sample("%d distinct supported sets", nseen);
      ex::group_end();
    }
    snprintf(nm, sizeof nm, "leaves_%s", p.first);
    if (ex::enter(nm)) {
      full();
      nseen = 0;
      for (uint32_t ml = 1; ml <= 0x26; ml++)  // every x86-64 processor has leaf 1
        for (uint32_t me : {0u, 0x80000000u, 0x80000001u, 0x80000008u, 0x7fffffffu})
          for (int b = 0; b < 3; b++)
            for (uint32_t nz : {0u, ~0u, 0x00040002u})
              for (int v = 0; v < 2; v++)
                for (uint32_t v10 : {2u | 1u << 18, 0u, 1u | 1u << 18}) {
                  C.max_leaf = ml; C.max_ext = me; C.beyond = b; C.noise = nz; C.vendor = v;
                  flips(p.second, ex::thorough() ? 2 : 1, 0, [&](uint64_t f) { set_feats(f); C.r[R24B] = v10; run_one(); });
                }
      ex::sample("%d distinct supported sets", nseen);
      ex::group_end();
    }
    snprintf(nm, sizeof nm, "os_%s", p.first);
    if (ex::enter(nm)) {
      full();
      nseen = 0;
      for (int v = 0; v < 6; v++)
        for (uint32_t v10 : kV10)
          for (uint32_t x = 0; x < 1024; x++) {
            C.vendor = v; C.xcr0 = x | (x & 1 ? 0xFFFFFC00u : 0);
            flips(p.second, ex::thorough() ? 2 : 1, 0, [&](uint64_t f) { set_feats(f); C.r[R24B] = v10; run_one(); });
          }
      ex::sample("%d distinct supported sets", nseen);
      ex::group_end();
    }
    // Bits that mean nothing to any target: all set, and each alone.
    snprintf(nm, sizeof nm, "unrelated_%s", p.first);
    if (ex::enter(nm)) {
      full();
      nseen = 0;
      uint32_t meaning[NREG] = {};
      for (int i = 0; i < NF; i++) meaning[kF[i].reg] |= 1u << kF[i].bit;
      meaning[R24B] = 0xFF | 1u << 18;
      for (int v = 0; v < 2; v++)
        for (int kind = 0; kind < NREG * 33; kind++)
          flips(p.second, ex::thorough() ? 2 : 1, 0, [&](uint64_t f) {
            set_feats(f);
            C.vendor = v;
            C.r[R24B] = 2 | 1u << 18;
            const int r = kind / 33, b = kind % 33;
            if (b == 32) for (int q = 0; q < NREG; q++) { if (q == r || r == NREG - 1) C.r[q] |= ~meaning[q]; }
            else C.r[r] |= (1u << b) & ~meaning[r];
            run_one();
            set_feats(f);
          });
      ex::sample("%d distinct supported sets", nseen);
      ex::group_end();
    }
  }
  // Complete subsets of the features of one family, everything else present.
  struct { const char* n; const char* l; } fam[] = {
      {"subsets_sse_avx", "sse,sse2,sse3,ssse3,sse4.1,sse4.2,pclmul,aes,avx,avx2,lzcnt,bmi,bmi2,fma,f16c,xsave,osxsave"},
      {"subsets_avx512", "avx2,avx512f,avx512dq,avx512cd,avx512bw,avx512vl,avx512vbmi,avx512vbmi2,gfni,vaes,vpclmulqdq,avx512vnni,avx512bitalg,avx512vpopcntdq,avx512bf16,avx512fp16,avx10,apx,osxsave"}};
  for (auto& q : fam) {
    if (!ex::enter(q.n)) continue;
    full();
    nseen = 0;
    const uint64_t m = set_of(q.l);
    for (uint64_t s = m;; s = (s - 1) & m) {
      for (int v = 0; v < 2; v++)
        for (uint32_t v10 : {2u | 1u << 18, 0u}) {
          set_feats((kAllF & ~m) | s);
          C.vendor = v;
          C.r[R24B] = v10;
          run_one();
        }
      if (!s) break;
    }
    ex::sample("%d distinct supported sets", nseen);
    ex::group_end();
  }
}
}  // namespace
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
