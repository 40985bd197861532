// C14: comparisons and masks.
#include "simd.h"
template <class T> T absf(T v) { return from<T>(bits(v) & ~((Bits<T>)1 << (sizeof(T) * 8 - 1))); }
#define VM(v) BitCast(RebindToUnsigned<D>(), VecFromMask(d, v))
#define SM(v) ((v) ? (TO)~(TO)0 : (TO)0)
#define CMP(N, op) OP2(N##_, VM(N(a, b)), SM(A op B)) OP2(Op##N, VM(a op b), SM(A op B)) OP2M(Masked##N##_, VM(Masked##N(m, a, b)), SM(M && A op B))
CMP(Eq, ==)
CMP(Ne, !=)
CMP(Lt, <)
CMP(Gt, >)
CMP(Le, <=)
CMP(Ge, >=)
#define SIGN(p) (bits(p) >> (sizeof(T) * 8 - 1))
// doc: v[i] < 0, and equivalent to the sign bit: they differ for -0 and NaN
OP1(IsNegative_, VM(IsNegative(a)), (A != A || A == 0) ? ANY() : SM(SIGN(A)))
OPX(TestBit_, A1 | LOOPW | NOEXH, 1, 0, VM(TestBit(a, Set(d, (T)(Bits<T>)((u64)1 << g_k)))), SM((u64)bits(A) >> g_k & 1))
// a different bit in each lane
OPX(TestBitVar, A1 | LOOPW | NOEXH, 1, 0, VM(TestBit(a, Shl(Set(d, (T)1), And(Iota(d, (T)g_k), Set(d, (T)(sizeof(T) * 8 - 1)))))), SM((u64)bits(A) >> ((i + (size_t)g_k) % (sizeof(T) * 8)) & 1))
#define K128(p) ((UX)p[i | 1] << 64 | p[i & ~1ull])
OPX(Lt128_, A2, 2, 0, VM(Lt128(d, a, b)), SM(K128(pa) < K128(pb)))
OPX(Eq128_, A2, 2, 0, VM(Eq128(d, a, b)), SM(K128(pa) == K128(pb)))
OPX(Ne128_, A2, 2, 0, VM(Ne128(d, a, b)), SM(K128(pa) != K128(pb)))
OPX(Lt128Upper_, A2, 2, 0, VM(Lt128Upper(d, a, b)), SM(pa[i | 1] < pb[i | 1]))
OPX(Eq128Upper_, A2, 2, 0, VM(Eq128Upper(d, a, b)), SM(pa[i | 1] == pb[i | 1]))
OPX(Ne128Upper_, A2, 2, 0, VM(Ne128Upper(d, a, b)), SM(pa[i | 1] != pb[i | 1]))
OPX(MaskedSet_, A2 | MASK, 1, 0, MaskedSet(d, m, GetLane(b)), M ? pb[0] : from<T>(0))
OPX(MaskedSetOr_, A2 | MASK, 1, 0, MaskedSetOr(a, m, GetLane(b)), M ? pb[0] : A)
OPX(Set_, A1, 1, 0, Set(d, GetLane(a)), pa[0])
OP2M(IfThenElse_, IfThenElse(m, a, b), M ? A : B)
OP1M(IfThenElseZero_, IfThenElseZero(m, a), M ? A : from<T>(0))
OP1M(IfThenZeroElse_, IfThenZeroElse(m, a), M ? from<T>(0) : A)
OP2M(IfVecThenElse_, IfVecThenElse(VecFromMask(d, m), a, b), M ? A : B)

// ---------------------------------------------------------------- masks as arrays of booleans
typedef u64 MB;  // reference: bit i = lane i
inline MB low(size_t n) { return n >= 64 ? ~(MB)0 : ((MB)1 << n) - 1; }
static char g_ctx[160];
template <class D> Mask<D> make(D d, MB b) {
  typedef Bits<TFromD<D>> B;
  alignas(64) B v[64];
  for (size_t i = 0; i < 64; i++) v[i] = (B)(0 - (b >> i & 1));
  return MaskFromVec(ldg(d, (const TFromD<D>*)v, g_gar, 0xFF));
}
template <class D> MB read(D d, Mask<D> m, bool* weird) {
  typedef Bits<TFromD<D>> B;
  alignas(64) B v[64];
  StoreU(VecFromMask(d, m), d, (TFromD<D>*)v);
  MB b = 0;
  for (size_t i = 0; i < Lanes(d); i++) { if (v[i] != 0 && v[i] != (B)~(B)0) *weird = true; b |= (MB)(v[i] != 0) << i; }
  return b;
}
static uint64_t g_n;
#define MF(...) ex::failc(g_ctx, __VA_ARGS__)
// Every way of looking at a mask.
template <class D> HWY_NOINLINE void look(D d, Mask<D> m, MB want, const char* what) {
  const size_t N = Lanes(d);
  typedef unsigned long long L;
  bool weird = false;
  const MB got = read(d, m, &weird);
  g_n++;
  if (got != want || weird) { MF("%s: mask is %llx, expected %llx%s", what, (L)got, (L)want, weird ? " (lane neither 0 nor all ones)" : ""); return; }
  u8 st[16];
  memset(st, 0xAB, sizeof st);
  const size_t nb = StoreMaskBits(d, m, st);
  MB sb = 0;
  for (size_t i = 0; i < (N + 7) / 8; i++) sb |= (MB)st[i] << (8 * i);
  if (nb != (N + 7) / 8 || sb != want) MF("%s: StoreMaskBits wrote %llx, %zu bytes, expected %llx", what, (L)sb, nb, (L)want);
  for (size_t i = N <= 64 ? 8 : 16; i < 16; i++) if (st[i] != 0xAB) MF("%s: StoreMaskBits wrote past 8 bytes", what);
  if ((MB)BitsFromMask(d, m) != want) MF("%s: BitsFromMask = %llx, expected %llx", what, (L)BitsFromMask(d, m), (L)want);
  if (AllTrue(d, m) != (want == low(N))) MF("%s: AllTrue = %d for %llx", what, AllTrue(d, m), (L)want);
  if (AllFalse(d, m) != (want == 0)) MF("%s: AllFalse = %d for %llx", what, AllFalse(d, m), (L)want);
  if (CountTrue(d, m) != (size_t)__builtin_popcountll(want)) MF("%s: CountTrue = %zu for %llx", what, CountTrue(d, m), (L)want);
  const intptr_t ff = want ? __builtin_ctzll(want) : -1, fl = want ? 63 - __builtin_clzll(want) : -1;
  if (FindFirstTrue(d, m) != ff) MF("%s: FindFirstTrue = %d for %llx", what, (int)FindFirstTrue(d, m), (L)want);
  if (FindLastTrue(d, m) != fl) MF("%s: FindLastTrue = %d for %llx", what, (int)FindLastTrue(d, m), (L)want);
  if (want) {
    if ((intptr_t)FindKnownFirstTrue(d, m) != ff) MF("%s: FindKnownFirstTrue = %zu for %llx", what, FindKnownFirstTrue(d, m), (L)want);
    if ((intptr_t)FindKnownLastTrue(d, m) != fl) MF("%s: FindKnownLastTrue = %zu for %llx", what, FindKnownLastTrue(d, m), (L)want);
  }
}
// All masks of up to 16 lanes; above, every 16-lane pattern in every aligned position over
// a false and a true background, all intervals and all masks with up to three odd ones out.
template <class F> void masks(size_t N, F f) {
  if (N <= 16) { for (MB b = 0; b <= low(N); b++) { f(b); if (ex::many()) return; } return; }
  const size_t step = ex::thorough() ? 8 : 16;
  for (size_t p = 0; p + 16 <= N; p += step)
    for (int bg = 0; bg < 2; bg++)
      for (MB b = 0; b < 65536; b++) { f(((bg ? low(N) : 0) & ~((MB)65535 << p)) | b << p); if (ex::many()) return; }
  for (size_t i = 0; i < N; i++) for (size_t j = i; j <= N; j++) { const MB iv = low(j) & ~low(i); f(iv); f(low(N) & ~iv); }
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j <= i; j++) for (size_t k = 0; k <= j; k++) { const MB t = (MB)1 << i | (MB)1 << j | (MB)1 << k; f(t); f(low(N) & ~t); if (ex::many()) return; }
}
static const MB kSome[] = {0, 1, 2, 3, 5, 6, 8, 9, 0x10, 0x55, 0x80, 0xaa, 0xf0, 0xff, 0x100, 0x8000, 0x5555, 0xaaaa, 0xff00, 0xffff, 0x12345, 0x80000000, 0xffffffff, 0x100000000, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0xff00ff00ff00ff00, 0x8000000000000000, 0x7fffffffffffffff, 0xfffffffffffffffe, 0xffffffffffffffff};

template <class T> void unary() {
  group<T>("MaskOps", [](auto d) HWY_ATTR {
    using D = decltype(d);
    const size_t N = Lanes(d);
    masks(N, [&](MB b) HWY_ATTR {
      snprintf(g_ctx, sizeof g_ctx, "N=%zu mask=%llx", N, (unsigned long long)b);
      const Mask<D> m = make(d, b);
      look(d, m, b, "MaskFromVec");
      u8 by[8];
      // unused bits of the last byte, and the bytes beyond, must be ignored
      for (int junk = 0; junk < 2; junk++) {
        for (int k = 0; k < 8; k++) by[k] = (u8)((b | (junk ? ~low(N) : 0)) >> (8 * k));
        look(d, LoadMaskBits(d, by), b, junk ? "LoadMaskBits (other bits set)" : "LoadMaskBits");
      }
      look(d, Not(m), ~b & low(N), "Not");
      look(d, SetOnlyFirst(m), b & -b, "SetOnlyFirst");
      look(d, SetBeforeFirst(m), b ? low(__builtin_ctzll(b)) : low(N), "SetBeforeFirst");
      look(d, SetAtOrBeforeFirst(m), b ? (b ^ (b - 1)) & low(N) : low(N), "SetAtOrBeforeFirst");
      look(d, SetAtOrAfterFirst(m), b ? ~low(__builtin_ctzll(b)) & low(N) : 0, "SetAtOrAfterFirst");
      look(d, SlideMask1Up(d, m), (b << 1) & low(N), "SlideMask1Up");
      look(d, SlideMask1Down(d, m), b >> 1, "SlideMask1Down");
      // results are compared to masks built from vector comparisons and logical ops
      look(d, And(m, Not(m)), 0, "And(m, Not(m))");
      look(d, Or(m, Not(m)), low(N), "Or(m, Not(m))");
      look(d, Xor(Not(m), Not(m)), 0, "Xor(Not(m), Not(m))");
      look(d, ExclusiveNeither(m, SetBeforeFirst(m)), b ? (~b & low(N) & ~low(__builtin_ctzll(b))) : 0, "ExclusiveNeither(m, SetBeforeFirst(m))");
      look(d, AndNot(m, MaskFromVec(VecFromMask(d, Not(m)))), ~b & low(N), "AndNot(m, Not(m))");
      const RebindToSigned<D> di;
      const RebindToUnsigned<D> du;
      look(di, RebindMask(di, m), b, "RebindMask to signed");
      look(du, RebindMask(du, m), b, "RebindMask to unsigned");
      look(d, RebindMask(d, RebindMask(di, Not(m))), ~b & low(N), "RebindMask twice");
      if constexpr (sizeof(T) >= 4) { const RebindToFloat<D> df; look(df, RebindMask(df, m), b, "RebindMask to float"); }
    });
    ex::add(g_n);
    g_n = 0;
  });
}
template <class T> void binary() {
  group<T>("MaskPairs", [](auto d) HWY_ATTR {
    using D = decltype(d);
    const size_t N = Lanes(d);
    auto two = [&](MB a, MB b) HWY_ATTR {
      snprintf(g_ctx, sizeof g_ctx, "N=%zu masks=%llx,%llx", N, (unsigned long long)a, (unsigned long long)b);
      const Mask<D> x = make(d, a), y = make(d, b);
      look(d, And(x, y), a & b, "And");
      look(d, Or(x, y), a | b, "Or");
      look(d, Xor(x, y), a ^ b, "Xor");
      look(d, AndNot(x, y), ~a & b, "AndNot");
      if (!(a & b)) look(d, ExclusiveNeither(x, y), ~a & ~b & low(N), "ExclusiveNeither");
    };
    if (N <= 8) { for (MB a = 0; a <= low(N); a++) for (MB b = 0; b <= low(N) && !ex::many(); b++) two(a, b); }
    else for (MB a : kSome) masks(N <= 16 ? N : 16, [&](MB b) HWY_ATTR { if (a <= low(N)) { two(a, b); two((b * 0x0001000100010001ull) & low(N), a); } });
    ex::add(g_n);
    g_n = 0;
  });
}
template <class T> void counts() {
  group<T>("FirstN", [](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    const u64 mx = sizeof(T) == 8 ? (u64)INT64_MAX : ((u64)1 << (sizeof(T) * 8 - 1)) - 1;
    auto one = [&](u64 n) HWY_ATTR {
      if (n > mx || n != (size_t)n) return;
      snprintf(g_ctx, sizeof g_ctx, "N=%zu n=%llu", N, (unsigned long long)n);
      look(d, FirstN(d, (size_t)n), low(n < N ? (size_t)n : N), "FirstN");
    };
    for (u64 n = 0; n < 1024; n++) one(n);
    for (u64 n = 1024; n <= 70000; n++) one(n);
    for (int k = 17; k < 63; k++) { one((u64)1 << k); one(((u64)1 << k) - 1); one(((u64)1 << k) + 1); }
    one(mx);
    one(mx - 1);
    snprintf(g_ctx, sizeof g_ctx, "N=%zu", N);
    look(d, MaskFalse(d), 0, "MaskFalse");
    for (u64 b = 0; b < (1ull << (16 / sizeof(T))); b++)
      for (unsigned junk : {0u, ~0u}) {
        if (sizeof(T) < 2 && junk && b % 257) continue;
        const size_t L = 16 / sizeof(T);
        MB w = 0;
        for (size_t i = 0; i < N; i++) w |= (b >> (i % L) & 1) << i;
        snprintf(g_ctx, sizeof g_ctx, "N=%zu mask_bits=%llx", N, (unsigned long long)b);
        look(d, Dup128MaskFromMaskBits(d, (unsigned)b | (junk & ~(unsigned)low(L))), w, "Dup128MaskFromMaskBits");
      }
    for (MB b : kSome) {
      if (b > low(N)) continue;
      for (size_t k = 0; k < N; k++) {
        snprintf(g_ctx, sizeof g_ctx, "N=%zu mask=%llx by %zu", N, (unsigned long long)b, k);
        look(d, SlideMaskUpLanes(d, make(d, b), k), (b << k) & low(N), "SlideMaskUpLanes");
        look(d, SlideMaskDownLanes(d, make(d, b), k), b >> k, "SlideMaskDownLanes");
      }
    }
    if (N <= 16) for (MB b = 0; b <= low(N); b++) for (size_t k = 0; k < N && !ex::many(); k++) {
      snprintf(g_ctx, sizeof g_ctx, "N=%zu mask=%llx by %zu", N, (unsigned long long)b, k);
      look(d, SlideMaskUpLanes(d, make(d, b), k), (b << k) & low(N), "SlideMaskUpLanes");
      look(d, SlideMaskDownLanes(d, make(d, b), k), b >> k, "SlideMaskDownLanes");
    }
    ex::add(g_n);
    g_n = 0;
  });
}
// Width changes. TW is wider than T.
template <class T, class TW> void widths() {
  char nm[40];
  snprintf(nm, sizeof nm, "PromoteMask<%s>", tname<TW>());
  group<TW>(nm, [](auto dw) HWY_ATTR {
    using DW = decltype(dw);
    const Rebind<T, DW> dn;  // same lane count
    const size_t N = Lanes(dw);
    masks(N, [&](MB b) HWY_ATTR {
      snprintf(g_ctx, sizeof g_ctx, "N=%zu mask=%llx %s<->%s", N, (unsigned long long)b, tname<T>(), tname<TW>());
      look(dw, PromoteMaskTo(dw, dn, make(dn, b)), b, "PromoteMaskTo");
      look(dn, DemoteMaskTo(dn, dw, make(dw, b)), b, "DemoteMaskTo");
      look(dw, PromoteMaskTo(dw, dn, Not(make(dn, b))), ~b & low(N), "PromoteMaskTo(Not)");
      look(dn, DemoteMaskTo(dn, dw, Not(make(dw, b))), ~b & low(N), "DemoteMaskTo(Not)");
    });
    ex::add(g_n);
    g_n = 0;
  });
}
template <class T> void halves() {
#if HWY_TARGET != HWY_SCALAR
  group<T>("HalfMasks", [](auto d) HWY_ATTR {
    using D = decltype(d);
    if constexpr (MaxLanes(D()) >= 2) {
      const Half<D> dh;
      const size_t N = Lanes(d);
      masks(N, [&](MB b) HWY_ATTR {
        snprintf(g_ctx, sizeof g_ctx, "N=%zu mask=%llx", N, (unsigned long long)b);
        const MB lo = b & low(N / 2), hi = b >> (N / 2);
        const Mask<D> m = make(d, b);
        look(dh, LowerHalfOfMask(dh, m), lo, "LowerHalfOfMask");
        look(dh, UpperHalfOfMask(dh, m), hi, "UpperHalfOfMask");
        look(d, CombineMasks(d, make(dh, hi), make(dh, lo)), b, "CombineMasks");
        look(d, CombineMasks(d, Not(make(dh, hi)), Not(make(dh, lo))), ~b & low(N), "CombineMasks(Not)");
      });
      if constexpr (sizeof(T) <= 4) {
        // d has N lanes of T; wide has N/2 lanes
        using TW = hwy::MakeWide<T>;
        const Repartition<TW, D> dw;
        if constexpr (MaxLanes(D()) * sizeof(T) >= sizeof(TW)) {
          masks(N, [&](MB b) HWY_ATTR {
            snprintf(g_ctx, sizeof g_ctx, "N=%zu mask=%llx", N, (unsigned long long)b);
            look(d, OrderedDemote2MasksTo(d, dw, make(dw, b & low(N / 2)), make(dw, b >> (N / 2))), b, "OrderedDemote2MasksTo");
          });
        }
      }
    }
    ex::add(g_n);
    g_n = 0;
  });
#endif
}
#if HWY_HAVE_FLOAT16
#define GH(F) F<float16_t>();
#else
#define GH(F)
#endif
#define G(F) F<u8>(); F<i16>(); F<u32>(); F<f32>(); F<i64>(); F<f64>(); GH(F)
void all() {
#if PART == 0
  types<Eq_, ALLH_>(); types<Ne_, ALLH_>(); types<Lt_, ALLH_>(); types<Gt_, ALLH_>(); types<Le_, ALLH_>(); types<Ge_, ALLH_>();
  types<OpEq, ALLH_>(); types<OpNe, ALLH_>(); types<OpLt, ALLH_>(); types<OpGt, ALLH_>(); types<OpLe, ALLH_>(); types<OpGe, ALLH_>();
#elif PART == 1
  types<MaskedEq_, ALLH_>(); types<MaskedNe_, ALLH_>(); types<MaskedLt_, ALLH_>(); types<MaskedGt_, ALLH_>(); types<MaskedLe_, ALLH_>(); types<MaskedGe_, ALLH_>();
  types<IsNegative_, I_, FH_>(); types<TestBit_, UI_>(); types<TestBitVar, UI_>();
  types<IfThenElse_, ALLH_>(); types<IfThenElseZero_, ALLH_>(); types<IfThenZeroElse_, ALLH_>(); types<IfVecThenElse_, ALLH_>();
  types<MaskedSet_, ALLH_>(); types<MaskedSetOr_, ALLH_>(); types<Set_, ALLH_>();
#if HWY_TARGET != HWY_SCALAR
  types<Lt128_, u64>(); types<Eq128_, u64>(); types<Ne128_, u64>(); types<Lt128Upper_, u64>(); types<Eq128Upper_, u64>(); types<Ne128Upper_, u64>();
#endif
#elif PART == 2
  G(unary) G(binary)
#else
  G(counts)
  G(halves)
  halves<i8>(); halves<u16>();
  widths<u8, u16>(); widths<i8, i32>(); widths<u8, f64>(); widths<i16, f32>(); widths<u16, u64>(); widths<f32, i64>(); widths<u32, f64>(); widths<i8, i16>(); widths<u16, i32>();
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
