// C13: shifts, rotates, logical ops and bit manipulation.
#include <utility>
#include "simd.h"
template <class T> constexpr int W() { return sizeof(T) * 8; }
template <class T> using TU_ = MakeUnsigned<T>;
template <class T> T shl(T a, int n) { return (T)((TU_<T>)a << n); }
template <class T> T shr(T a, int n) { return (T)(a >> n); }
template <class T> T rshr(T a, int n) { return n == 0 ? a : (T)(((X)(a >> (n - 1)) + 1) >> 1); }
template <class T> T ror(T a, int n) {
  n &= W<T>() - 1;
  const TU_<T> u = (TU_<T>)a;
  return n == 0 ? a : (T)(TU_<T>)(u >> n | (TU_<T>)(u << (W<T>() - n)));
}
template <class T> T rol(T a, int n) { return ror(a, W<T>() - (n & (W<T>() - 1))); }
// Compile-time counts: one kernel holds every count, g_k selects.
template <class V, class F, size_t... K> HWY_INLINE V consts(V a, F f, std::index_sequence<K...>) {
  V r = a;
  (void)((g_k == (int)K ? (r = f(std::integral_constant<int, (int)K>()), true) : false) || ...);
  return r;
}
#define CONSTS(EXPR) consts(a, [&](auto kc) HWY_ATTR { constexpr int K = decltype(kc)::value; (void)K; return EXPR; }, std::make_index_sequence<sizeof(T) * 8>())
#define OPC(NAME, MODE, V, S) OPX(NAME, MODE | LOOPW | NOEXH, 1, 0, CONSTS(V), S)
OPC(ShiftLeft_, A1, ShiftLeft<K>(a), shl(A, g_k))
OPC(ShiftRight_, A1, ShiftRight<K>(a), shr(A, g_k))
OPC(RoundingShiftRight_, A1, RoundingShiftRight<K>(a), rshr(A, g_k))
OPC(RotateLeft_, A1, RotateLeft<K>(a), rol(A, g_k))
OPC(RotateRight_, A1, RotateRight<K>(a), ror(A, g_k))
OPC(MaskedShiftLeft_, A1 | MASK, MaskedShiftLeft<K>(m, a), M ? shl(A, g_k) : (T)0)
OPC(MaskedShiftRight_, A1 | MASK, MaskedShiftRight<K>(m, a), M ? shr(A, g_k) : (T)0)
OPC(MaskedShiftRightOr_, A2 | MASK | SMALL, MaskedShiftRightOr<K>(b, m, a), M ? shr(A, g_k) : B)
#define OPL(NAME, MODE, V, S) OPX(NAME, MODE | LOOPW | NOEXH, 1, 0, V, S)
OPL(ShiftLeftSame_, A1, ShiftLeftSame(a, g_k), shl(A, g_k))
OPL(ShiftRightSame_, A1, ShiftRightSame(a, g_k), shr(A, g_k))
OPL(RoundingShiftRightSame_, A1, RoundingShiftRightSame(a, g_k), rshr(A, g_k))
OPL(RotateLeftSame_, A1, RotateLeftSame(a, g_k), rol(A, g_k))
OPL(RotateRightSame_, A1, RotateRightSame(a, g_k), ror(A, g_k))
// counts are taken modulo the lane width
OPL(RotateLeftSameWrap, A1, RotateLeftSame(RotateLeftSame(a, g_k - W<T>()), g_k + 3 * W<T>()), rol(A, 2 * g_k))
OPL(RotateRightSameWrap, A1, RotateRightSame(RotateRightSame(a, g_k - W<T>()), g_k + 3 * W<T>()), ror(A, 2 * g_k))
// Per-lane counts: (b + g_k) mod width, so that every value meets every count in every lane.
#define CNT And(Add(b, Set(d, (T)g_k)), Set(d, (T)(W<T>() - 1)))
#define SC ((int)(((TU_<T>)B + (TU_<T>)g_k) & (TU_<T>)(W<T>() - 1)))
#define OPV(NAME, V, S) OPX(NAME, A2 | LOOPW | SMALL | NOEXH, 1, 0, V, S)
OPV(Shl_, Shl(a, CNT), shl(A, SC))
OPV(Shr_, Shr(a, CNT), shr(A, SC))
OPV(OpShl, a << CNT, shl(A, SC))
OPV(OpShr, a >> CNT, shr(A, SC))
OPV(RoundingShr_, RoundingShr(a, CNT), rshr(A, SC))
OPV(Rol_, Rol(a, Add(b, Set(d, (T)g_k))), rol(A, SC))
OPV(Ror_, Ror(a, Add(b, Set(d, (T)g_k))), ror(A, SC))
OPX(MaskedShrOr_, A3 | MASK | SMALL | LOOPW, 1, 0, MaskedShrOr(c, m, a, CNT), M ? shr(A, SC) : C)
// All values against counts from the alphabet (8/16-bit: exhaustive).
#define CNTB And(b, Set(d, (T)(W<T>() - 1)))
#define SCB ((int)((TU_<T>)B & (TU_<T>)(W<T>() - 1)))
OP2(ShlAll, Shl(a, CNTB), shl(A, SCB))
OP2(ShrAll, Shr(a, CNTB), shr(A, SCB))
OP2(RoundingShrAll, RoundingShr(a, CNTB), rshr(A, SCB))
OP2(RolAll, Rol(a, b), rol(A, SCB))
OP2(RorAll, Ror(a, b), ror(A, SCB))
// bits
template <class T> T cnt1(T a) { return (T)__builtin_popcountll((u64)(TU_<T>)a); }
template <class T> T lzc(T a) { return (TU_<T>)a == 0 ? (T)W<T>() : (T)(__builtin_clzll((u64)(TU_<T>)a) - (64 - W<T>())); }
template <class T> T tzc(T a) { return (TU_<T>)a == 0 ? (T)W<T>() : (T)__builtin_ctzll((u64)(TU_<T>)a); }
template <class T> T rbits(T a) { TU_<T> r = 0; for (int k = 0; k < W<T>(); k++) if ((u64)(TU_<T>)a >> k & 1) r |= (TU_<T>)((TU_<T>)1 << (W<T>() - 1 - k)); return (T)r; }
template <class T> T rbytes(T a) { T r; for (size_t k = 0; k < sizeof(T); k++) ((u8*)&r)[k] = ((u8*)&a)[sizeof(T) - 1 - k]; return r; }
OP1(PopulationCount_, PopulationCount(a), cnt1(A))
OP1(LeadingZeroCount_, LeadingZeroCount(a), lzc(A))
OP1M(MaskedLeadingZeroCount_, MaskedLeadingZeroCount(m, a), M ? lzc(A) : (T)0)
OP1(TrailingZeroCount_, TrailingZeroCount(a), tzc(A))
// zero: any value that is negative when signed
#define HSB(v) ((v) == 0 ? (g_any = (MakeSigned<T>)g_out<T> < 0, (T)-1) : (T)(W<T>() - 1 - (int)lzc(v)))
OP1(HighestSetBitIndex_, HighestSetBitIndex(a), HSB(A))
OP1(ReverseBits_, ReverseBits(a), rbits(A))
OP1(ReverseLaneBytes_, ReverseLaneBytes(a), rbytes(A))
OP1(BroadcastSignBit_, BroadcastSignBit(a), A < 0 ? (T)-1 : (T)0)
// logical (all types incl. float, on bit patterns)
#define BB(v) bits(v)
#define FB(v) from<T>((B_)(v))
OP2(And_, And(a, b), FB(BB(A) & BB(B)))
OP2(Or_, Or(a, b), FB(BB(A) | BB(B)))
OP2(Xor_, Xor(a, b), FB(BB(A) ^ BB(B)))
OP1(Not_, Not(a), FB(~BB(A)))
OP2(AndNot_, AndNot(a, b), FB(~BB(A) & BB(B)))
OP2(OpAnd, a & b, FB(BB(A) & BB(B)))
OP2(OpOr, a | b, FB(BB(A) | BB(B)))
OP2(OpXor, a ^ b, FB(BB(A) ^ BB(B)))
OP2M(MaskedOr_, MaskedOr(m, a, b), M ? FB(BB(A) | BB(B)) : (T)0)
OP3(Xor3_, Xor3(a, b, c), FB(BB(A) ^ BB(B) ^ BB(C)))
OP3(Or3_, Or3(a, b, c), FB(BB(A) | BB(B) | BB(C)))
OP3(OrAnd_, OrAnd(a, b, c), FB(BB(A) | (BB(B) & BB(C))))
OP3(BitwiseIfThenElse_, BitwiseIfThenElse(a, b, c), FB((BB(A) & BB(B)) | (~BB(A) & BB(C))))
// bit permutations within 64-bit lanes: indices are the bytes of b, rotated by g_k, mod 64
#define IDX BitCast(Repartition<u8, D>(), And(Add(BitCast(Repartition<u8, D>(), b), Set(Repartition<u8, D>(), (u8)g_k)), Set(Repartition<u8, D>(), (u8)63)))
#define IB(j) ((int)((u8)(((u64)B >> (8 * (j))) + (u64)g_k) & 63))
template <class T> T mrr(T a, T b) { u64 r = 0; for (int j = 0; j < 8; j++) { const int q = (int)((u8)(((u64)b >> (8 * j)) + (u64)g_k) & 63); r |= (u64)(u8)ror((u64)a, q) << (8 * j); } return (T)r; }
template <class T> T bsh(T a, T b) { u64 r = 0; for (int j = 0; j < 8; j++) { const int q = (int)((u8)(((u64)b >> (8 * j)) + (u64)g_k) & 63); r |= ((u64)a >> q & 1) << j; } return (T)r; }
OPL(MultiRotateRight_, A2 | SMALL, MultiRotateRight(a, IDX), mrr(A, B))
OPL(MultiRotateRightI, A2 | SMALL, MultiRotateRight(a, BitCast(Repartition<i8, D>(), IDX)), mrr(A, B))
OPL(BitShuffle_, A2 | SMALL, BitShuffle(a, IDX), bsh(A, B))
OPL(BitShuffleI, A2 | SMALL, BitShuffle(a, BitCast(Repartition<i8, D>(), IDX)), bsh(A, B))

template <class T> void all_bits() {
  group<T>("AllBits", [](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    alignas(64) Bits<T> v[64];
    const Bits<T> ones = (Bits<T>)~(Bits<T>)0;
    uint64_t n = 0;
    for (int base = 0; base < 2; base++)
      for (size_t i = 0; i <= N; i++)
        for (int k = 0; k < (i < N ? W<Bits<T>>() : 1); k++) {  // flip one bit (none if i == N)
          for (size_t j = 0; j < 64; j++) v[j] = j < N ? (base ? ones : (Bits<T>)0) : (Bits<T>)(base ? 0 : ones);
          if (i < N) v[i] ^= (Bits<T>)((Bits<T>)1 << k);
          const auto x = LoadU(d, (const T*)v);
          EX_CHECK(AllBits1(d, x) == (base && i == N), "N=%zu base %d, flipped bit %d of lane %zu: AllBits1=%d", N, base, k, i, AllBits1(d, x));
          EX_CHECK(AllBits0(d, x) == (!base && i == N), "N=%zu base %d, flipped bit %d of lane %zu: AllBits0=%d", N, base, k, i, AllBits0(d, x));
          n += 2;
        }
    ex::add(n);
  });
}
void all() {
#if PART == 0
  types<ShiftLeft_, UI_>(); types<ShiftRight_, UI_>(); types<RoundingShiftRight_, UI_>(); types<RotateLeft_, UI_>(); types<RotateRight_, UI_>();
  types<MaskedShiftLeft_, UI_>(); types<MaskedShiftRight_, UI_>(); types<MaskedShiftRightOr_, UI_>();
#elif PART == 1
  types<ShiftLeftSame_, UI_>(); types<ShiftRightSame_, UI_>(); types<RoundingShiftRightSame_, UI_>(); types<RotateLeftSame_, UI_>(); types<RotateRightSame_, UI_>();
  types<RotateLeftSameWrap, UI_>(); types<RotateRightSameWrap, UI_>();
  types<Shl_, UI_>(); types<Shr_, UI_>(); types<OpShl, UI_>(); types<OpShr, UI_>(); types<RoundingShr_, UI_>(); types<Rol_, UI_>(); types<Ror_, UI_>(); types<MaskedShrOr_, UI_>();
  types<ShlAll, UI_>(); types<ShrAll, UI_>(); types<RoundingShrAll, UI_>(); types<RolAll, UI_>(); types<RorAll, UI_>();
#elif PART == 2
  types<PopulationCount_, U_>(); types<LeadingZeroCount_, UI_>(); types<MaskedLeadingZeroCount_, UI_>(); types<TrailingZeroCount_, UI_>(); types<HighestSetBitIndex_, UI_>();
  types<ReverseBits_, UI_>(); types<ReverseLaneBytes_, u16, i16, u32, i32, u64, i64>(); types<BroadcastSignBit_, I_>();
  types<And_, ALLH_>(); types<Or_, ALLH_>(); types<Xor_, ALLH_>(); types<Not_, ALLH_>(); types<AndNot_, ALLH_>(); types<OpAnd, UI_>(); types<OpOr, UI_>(); types<OpXor, UI_>();
  types<MaskedOr_, UI_>(); types<Xor3_, ALLH_>(); types<Or3_, ALLH_>(); types<OrAnd_, ALLH_>(); types<BitwiseIfThenElse_, ALLH_>();
#if HWY_TARGET != HWY_SCALAR
  types<MultiRotateRight_, u64, i64>(); types<MultiRotateRightI, u64, i64>(); types<BitShuffle_, u64, i64>(); types<BitShuffleI, u64, i64>();
#endif
  all_bits<u8>(); all_bits<i8>(); all_bits<u16>(); all_bits<i16>(); all_bits<u32>(); all_bits<i32>(); all_bits<u64>(); all_bits<i64>(); all_bits<f32>(); all_bits<f64>();
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
