// C11: integer arithmetic.
#include "simd.h"
// Reinterpret wide results modulo 2^bits.
template <class T> T wrap(X v) { return (T)(Bits<T>)v; }
template <class T> X absx(T v) { return v < 0 ? -(X)v : (X)v; }
#define BADDIV (B == 0 || (std::is_signed<T>::value && A == lo_<T>() && B == (T)-1))
// A divisor that is fine in unselected lanes may be anything.
OP2(Add_, Add(a, b), wrap<T>(x(A) + B))
OP2(Sub_, Sub(a, b), wrap<T>(x(A) - B))
OP2(OpPlus, a + b, wrap<T>(x(A) + B))
OP2(OpMinus, a - b, wrap<T>(x(A) - B))
OP2(AddSub_, AddSub(a, b), wrap<T>(i & 1 ? x(A) + B : x(A) - B))
OP1(Neg_, Neg(a), wrap<T>(-x(A)))
OP1(SaturatedNeg_, SaturatedNeg(a), sat<T>(-x(A)))
OP1(Abs_, Abs(a), wrap<T>(absx(A)))
OP1(SaturatedAbs_, SaturatedAbs(a), sat<T>(absx(A)))
OP2(AbsDiff_, AbsDiff(a, b), wrap<T>(A > B ? x(A) - B : x(B) - A))
OP2(SaturatedAdd_, SaturatedAdd(a, b), sat<T>(x(A) + B))
OP2(SaturatedSub_, SaturatedSub(a, b), sat<T>(x(A) - B))
OP2(AverageRound_, AverageRound(a, b), wrap<T>((x(A) + B + 1) >> 1))
OP2(Min_, Min(a, b), A < B ? A : B)
OP2(Max_, Max(a, b), A > B ? A : B)
OP2(MinMagnitude_, MinMagnitude(a, b), (absx(A) < absx(B) || (absx(A) == absx(B) && A < B)) ? A : B)
OP2(MaxMagnitude_, MaxMagnitude(a, b), (absx(A) < absx(B) || (absx(A) == absx(B) && A < B)) ? B : A)
OP3(Clamp_, Clamp(a, Min(b, c), Max(b, c)), A < (B < C ? B : C) ? (B < C ? B : C) : A > (B < C ? C : B) ? (B < C ? C : B) : A)
OPX(Div_, A2 | MULT, 1, 0, Div(a, b), BADDIV ? ANY() : (T)(A / (BADDIV ? (T)1 : B)))
OPX(Mod_, A2 | MULT, 1, 0, Mod(a, b), BADDIV ? ANY() : (T)(A % (BADDIV ? (T)1 : B)))
OP2(OpDiv, a / b, BADDIV ? ANY() : (T)(A / (BADDIV ? (T)1 : B)))
OP2(OpMod, a % b, BADDIV ? ANY() : (T)(A % (BADDIV ? (T)1 : B)))
OP2(Mul_, Mul(a, b), (T)(B_)((UX)(X)A * (UX)(X)B))
OP2(OpMul, a * b, (T)(B_)((UX)(X)A * (UX)(X)B))
OP2(MulHigh_, MulHigh(a, b), (T)(B_)((std::is_signed<T>::value ? (UX)(x(A) * x(B)) : (UX)A * (UX)B) >> (sizeof(T) * 8)))
OP2(MulFixedPoint15_, MulFixedPoint15(a, b), A == -32768 && B == -32768 ? ANY() : (T)((2 * (int)A * (int)B + 0x8000) >> 16))
template <class T, class TO> TO wideprod(T a, T b) { return std::is_signed<T>::value ? (TO)((X)a * (X)b) : (TO)((UX)a * (UX)b); }
OPX(MulEven_, A2, S == 8 ? 2 : 1, 0, MulEven(a, b), (wideprod<T, TO>(pa[N == 1 ? 0 : 2 * i], pb[N == 1 ? 0 : 2 * i])))
OPX(MulOdd_, A2, 2, 0, MulOdd(a, b), (wideprod<T, TO>(pa[2 * i + 1], pb[2 * i + 1])))
// 64-bit: lower and upper half of the 128-bit product in adjacent lanes
#define PROD(k) (std::is_signed<T>::value ? (UX)(x(pa[k]) * x(pb[k])) : (UX)pa[k] * (UX)pb[k])
OPX(MulEven64, A2, 2, 0, MulEven(a, b), (T)(u64)(PROD(i & ~1ull) >> (i & 1 ? 64 : 0)))
OPX(MulOdd64, A2, 2, 0, MulOdd(a, b), (T)(u64)(PROD(i | 1) >> (i & 1 ? 64 : 0)))
OP3(MulAdd_, MulAdd(a, b, c), (T)(B_)((UX)(X)A * (UX)(X)B + (UX)(X)C))
OP3(NegMulAdd_, NegMulAdd(a, b, c), (T)(B_)((UX)(X)C - (UX)(X)A * (UX)(X)B))
OP3(MulSub_, MulSub(a, b, c), (T)(B_)((UX)(X)A * (UX)(X)B - (UX)(X)C))
OP3(NegMulSub_, NegMulSub(a, b, c), (T)(B_)(-((UX)(X)A * (UX)(X)B) - (UX)(X)C))
OP3(MulAddSub_, MulAddSub(a, b, c), (T)(B_)((UX)(X)A * (UX)(X)B + (i & 1 ? (UX)(X)C : -(UX)(X)C)))
OP3(MulSubAdd_, MulSubAdd(a, b, c), (T)(B_)((UX)(X)A * (UX)(X)B + (i & 1 ? -(UX)(X)C : (UX)(X)C)))
// masked
OP3M(MaskedMinOr_, MaskedMinOr(c, m, a, b), M ? (A < B ? A : B) : C)
OP3M(MaskedMaxOr_, MaskedMaxOr(c, m, a, b), M ? (A > B ? A : B) : C)
OP3M(MaskedAddOr_, MaskedAddOr(c, m, a, b), M ? wrap<T>(x(A) + B) : C)
OP3M(MaskedSubOr_, MaskedSubOr(c, m, a, b), M ? wrap<T>(x(A) - B) : C)
OP3M(MaskedMulOr_, MaskedMulOr(c, m, a, b), M ? (T)(B_)((UX)(X)A * (UX)(X)B) : C)
OP3M(MaskedDivOr_, MaskedDivOr(c, m, a, b), !M ? C : BADDIV ? ANY() : (T)(A / (BADDIV ? (T)1 : B)))
OP3M(MaskedModOr_, MaskedModOr(c, m, a, b), !M ? C : BADDIV ? ANY() : (T)(A % (BADDIV ? (T)1 : B)))
OP3M(MaskedSatAddOr_, MaskedSatAddOr(c, m, a, b), M ? sat<T>(x(A) + B) : C)
OP3M(MaskedSatSubOr_, MaskedSatSubOr(c, m, a, b), M ? sat<T>(x(A) - B) : C)
OP2M(MaskedAbsOr_, MaskedAbsOr(b, m, a), M ? wrap<T>(absx(A)) : B)
OP1M(MaskedAbs_, MaskedAbs(m, a), M ? wrap<T>(absx(A)) : (T)0)
OP2M(MaskedMax_, MaskedMax(m, a, b), M ? (A > B ? A : B) : (T)0)
OP2M(MaskedAdd_, MaskedAdd(m, a, b), M ? wrap<T>(x(A) + B) : (T)0)
OP2M(MaskedSub_, MaskedSub(m, a, b), M ? wrap<T>(x(A) - B) : (T)0)
OP2M(MaskedMul_, MaskedMul(m, a, b), M ? (T)(B_)((UX)(X)A * (UX)(X)B) : (T)0)
OP2M(MaskedSaturatedAdd_, MaskedSaturatedAdd(m, a, b), M ? sat<T>(x(A) + B) : (T)0)
OP2M(MaskedSaturatedSub_, MaskedSaturatedSub(m, a, b), M ? sat<T>(x(A) - B) : (T)0)
OP2M(MaskedMulFixedPoint15_, MaskedMulFixedPoint15(m, a, b), !M ? (T)0 : A == -32768 && B == -32768 ? ANY() : (T)((2 * (int)A * (int)B + 0x8000) >> 16))
OP3M(MaskedMulAdd_, MaskedMulAdd(m, a, b, c), M ? (T)(B_)((UX)(X)A * (UX)(X)B + (UX)(X)C) : (T)0)
OP3M(MaskedNegMulAdd_, MaskedNegMulAdd(m, a, b, c), M ? (T)(B_)((UX)(X)C - (UX)(X)A * (UX)(X)B) : (T)0)
// MaskedMulAddOr(no, m, mul, x, add) with no = a
OP3M(MaskedMulAddOr_, MaskedMulAddOr(a, m, a, b, c), M ? (T)(B_)((UX)(X)A * (UX)(X)B + (UX)(X)C) : A)
// 128-bit keys
#define K128(p) ((UX)p[i | 1] << 64 | p[i & ~1ull])
#define PICK(cond) (cond ? pa[i] : pb[i])
OPX(Min128_, A2, 2, 0, Min128(d, a, b), PICK(K128(pa) < K128(pb)))
OPX(Max128_, A2, 2, 0, Max128(d, a, b), PICK(K128(pb) < K128(pa)))
OPX(Min128Upper_, A2, 2, 0, Min128Upper(d, a, b), PICK(pa[i | 1] < pb[i | 1]))
OPX(Max128Upper_, A2, 2, 0, Max128Upper(d, a, b), PICK(pb[i | 1] < pa[i | 1]))

void all() {
#if PART == 0
  types<Add_, UI_>(); types<Sub_, UI_>(); types<OpPlus, UI_>(); types<OpMinus, UI_>(); types<AddSub_, UI_>();
  types<Neg_, I_>(); types<SaturatedNeg_, I_>(); types<Abs_, I_>(); types<SaturatedAbs_, I_>();
  types<AbsDiff_, UI_>();
  types<SaturatedAdd_, UI_>(); types<SaturatedSub_, UI_>(); types<AverageRound_, UI_>();
  types<Min_, UI_>(); types<Max_, UI_>(); types<MinMagnitude_, UI_>(); types<MaxMagnitude_, UI_>(); types<Clamp_, UI_>();
#elif PART == 1
  types<Div_, UI_>(); types<Mod_, UI_>(); types<OpDiv, UI_>(); types<OpMod, UI_>();
  types<MaskedDivOr_, UI_>(); types<MaskedModOr_, UI_>();
#elif PART == 2
  types<Mul_, UI_>(); types<OpMul, UI_>(); types<MulHigh_, UI_>(); types<MulFixedPoint15_, i16>();
  types<MulEven_, u8, i8, u16, i16, u32, i32>();
  types<MulAdd_, UI_>(); types<NegMulAdd_, UI_>(); types<MulSub_, UI_>(); types<NegMulSub_, UI_>(); types<MulAddSub_, UI_>(); types<MulSubAdd_, UI_>();
#if HWY_TARGET != HWY_SCALAR
  types<MulOdd_, u8, i8, u16, i16, u32, i32>(); types<MulEven64, u64, i64>(); types<MulOdd64, u64, i64>();
  types<Min128_, u64>(); types<Max128_, u64>(); types<Min128Upper_, u64>(); types<Max128Upper_, u64>();
#endif
#elif PART == 3
  types<MaskedMinOr_, UI_>(); types<MaskedMaxOr_, UI_>(); types<MaskedAddOr_, UI_>(); types<MaskedSubOr_, UI_>(); types<MaskedMulOr_, UI_>();
  types<MaskedSatAddOr_, u8, i8, u16, i16>(); types<MaskedSatSubOr_, u8, i8, u16, i16>(); types<MaskedAbsOr_, I_>(); types<MaskedAbs_, I_>(); types<MaskedMax_, UI_>(); types<MaskedAdd_, UI_>(); types<MaskedSub_, UI_>();
  types<MaskedMul_, UI_>(); types<MaskedSaturatedAdd_, u8, i8, u16, i16>(); types<MaskedSaturatedSub_, u8, i8, u16, i16>(); types<MaskedMulFixedPoint15_, i16>();
  types<MaskedMulAdd_, UI_>(); types<MaskedNegMulAdd_, UI_>(); types<MaskedMulAddOr_, UI_>();
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
