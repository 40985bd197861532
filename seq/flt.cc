// C12: floating-point ops.
#include <fenv.h>
#include "simd.h"
#undef ANY
#define ANY() (g_any = true, (TO)0)
template <class T> T sgn(T v, bool s) { return from<T>((bits(v) & ~((Bits<T>)1 << (sizeof(T) * 8 - 1))) | (Bits<T>)s << (sizeof(T) * 8 - 1)); }
template <class T> bool sb(T v) { return bits(v) >> (sizeof(T) * 8 - 1); }
// Halves: exact in double (or __float128), so one rounding.
template <class T> constexpr bool half_() { return sizeof(T) == 2; }
template <class T> constexpr T tiny_(int k = 0) { return sizeof(T) == 2 ? (T)(0x1p-14 * (1 << k)) : sizeof(T) == 4 ? (T)(0x1p-126 * (1 << k)) : (T)(0x1p-1022 * (1 << k)); }  // smallest normal
template <class T> constexpr T big_() { return sizeof(T) == 2 ? (T)0x1p13 : sizeof(T) == 4 ? (T)0x1p125 : (T)0x1p1021; }
template <class T> T sq(T v) { return sizeof(T) == 4 ? (T)sqrtf((float)v) : (T)sqrt((double)v); }
template <class T> T fm(T a, T b, T c) {
#if HWY_HAVE_FLOAT16
  if constexpr (half_<T>()) return (T)((__float128)(double)a * (double)b + (double)c);
#endif
  return sizeof(T) == 4 ? (T)fmaf((float)a, (float)b, (float)c) : (T)fma((double)a, (double)b, (double)c); }
template <class T> T rnd(T v) { return (T)nearbyint((double)v); }
template <class T> T nanv() { return (T)__builtin_nan(""); }
#define INF_ (T)__builtin_inf()
#define N_(v) isnan_(v)
template <class T> T absf(T v) { return sgn(v, false); }
OP2(Add_, Add(a, b), A + B)
OP2(Sub_, Sub(a, b), A - B)
OP2(Mul_, Mul(a, b), A * B)
OP2(Div_, Div(a, b), A / B)
OP2(OpPlus, a + b, A + B)
OP2(OpMinus, a - b, A - B)
OP2(OpMul, a * b, A * B)
OP2(OpDiv, a / b, A / B)
OP2(AddSub_, AddSub(a, b), i & 1 ? A + B : A - B)
OP1(Sqrt_, Sqrt(a), sq(A))
OP1(Neg_, Neg(a), N_(A) ? A : sgn(A, !sb(A)))
OP1(Abs_, Abs(a), sgn(A, false))
OP2(AbsDiff_, AbsDiff(a, b), sgn((T)(A - B), false))
OP2(CopySign_, CopySign(a, b), sgn(A, sb(B)))
OP2(CopySignToAbs_, CopySignToAbs(Abs(a), b), sgn(A, sb(B)))
// NaN operands: either operand or NaN. Equal zeros: either.
#define MM(cond) (N_(A) || N_(B)) ? ANY() : (A == B && sb(A) != sb(B)) ? ANY() : (cond) ? A : B
OP2(Min_, Min(a, b), MM(A < B))
OP2(Max_, Max(a, b), MM(A > B))
OP2(MinMagnitude_, MinMagnitude(a, b), MM(absf(A) < absf(B) || (absf(A) == absf(B) && A < B)))
OP2(MaxMagnitude_, MaxMagnitude(a, b), MM(!(absf(A) < absf(B) || (absf(A) == absf(B) && A < B))))
#define NB(x) (N_(x) ? (T)0 : (x))
OP3(Clamp_, Clamp(a, IfThenElse(Lt(b, c), b, c), IfThenElse(Lt(b, c), c, b)),
    (N_(A) || N_(B) || N_(C) || A == 0 || B == 0 || C == 0) ? ANY() : A < (B < C ? B : C) ? (B < C ? B : C) : A > (B < C ? C : B) ? (B < C ? C : B) : A)
// Unfused or fused: the kernel returns the result, both roundings are acceptable.
#define FMA_(x, y, z) (same(g_out<T>, fm<T>(x, y, z)) ? fm<T>(x, y, z) : (T)((T)((x) * (y)) + (z)))
OP3(MulAdd_, MulAdd(a, b, c), FMA_(A, B, C))
OP3(NegMulAdd_, NegMulAdd(a, b, c), FMA_(-A, B, C))
OP3(MulSub_, MulSub(a, b, c), FMA_(A, B, -C))
OP3(NegMulSub_, NegMulSub(a, b, c), FMA_(-A, B, -C))
OP3(MulAddSub_, MulAddSub(a, b, c), i & 1 ? FMA_(A, B, C) : FMA_(A, B, -C))
OP3(MulSubAdd_, MulSubAdd(a, b, c), i & 1 ? FMA_(A, B, -C) : FMA_(A, B, C))
// The sign of a zero result is unspecified (SSSE3 and below drop it).
#define RZ(v) ((v) == 0 ? ((g_any = g_out<T> == 0), (T)0) : (T)(v))
// Emulated rounding may lose the sign of zero; the instructions and Trunc keep it.
#if HWY_TARGET == HWY_SSE2 || HWY_TARGET == HWY_SSSE3 || HWY_TARGET == HWY_SCALAR || HWY_TARGET == HWY_EMU128
#define RN(v) RZ(v)
#else
#define RN(v) (T)(v)
#endif
OP1(Round_, Round(a), RN(rnd(A)))
OP1(Trunc_, Trunc(a), A == 0 ? RN(A) : (T)trunc((double)A))
OP1(Ceil_, Ceil(a), RN(ceil((double)A)))
OP1(Floor_, Floor(a), RN(floor((double)A)))
OP2(MulRound_, MulRound(a, b), RZ(rnd((T)(A * B))))
#define MSK(v) VecFromMask(d, v)
#define BM(v) ((v) ? from<T>((Bits<T>)~(Bits<T>)0) : from<T>((Bits<T>)0))
// Masks are compared through an unsigned view because all-ones is a NaN.
#define VM(v) BitCast(RebindToUnsigned<D>(), VecFromMask(d, v))
#define SM(v) ((v) ? (TO)~(TO)0 : (TO)0)
OP1(IsNaN_, VM(IsNaN(a)), SM(N_(A)))
OP1(IsInf_, VM(IsInf(a)), SM(absf(A) == INF_))
OP1(IsFinite_, VM(IsFinite(a)), SM(!N_(A) && absf(A) != INF_))
OP2(IsEitherNaN_, VM(IsEitherNaN(a, b)), SM(N_(A) || N_(B)))
OP1M(MaskedIsNaN_, VM(MaskedIsNaN(m, a)), SM(M && N_(A)))
OP1(GetExponent_, GetExponent(a), (N_(A) || absf(A) == INF_ || A == 0 || absf(A) < tiny_<T>()) ? ANY() : (T)ilogb((double)A))
OP1(GetBiasedExponent_, GetBiasedExponent(a), (TO)(bits(A) >> mb_<T>() & ((1 << eb_<T>()) - 1)))
// Relative error of the estimates: "closer to 1%" on some targets, so allow 1% everywhere.
template <class T> T recip(T v) { return (T)1 / v; }
template <class T> T approx(T got, T want) {
  const T tiny = tiny_<T>();
  if (isnan_(want) || isnan_(got) || absf(want) == INF_ || absf(want) < tiny) return want;
  return absf(got - want) <= absf(want) * (T)0.01 ? got : want;
}
#define TINY (absf(A) < tiny_<T>(1) || absf(A) > big_<T>())
OP1(ApproxRecip, ApproximateReciprocal(a), N_(A) || TINY ? ANY() : approx(g_out<T>, (T)1 / A))
OP1(ApproxRsqrt, ApproximateReciprocalSqrt(a), N_(A) || A <= 0 || TINY ? ANY() : approx(g_out<T>, (T)1 / sq(A)))
OP1M(MaskedApproxRecip, MaskedApproximateReciprocal(m, a), !M ? (T)0 : N_(A) || TINY ? ANY() : approx(g_out<T>, (T)1 / A))
OP1M(MaskedApproxRsqrt, MaskedApproximateReciprocalSqrt(m, a), !M ? (T)0 : N_(A) || A <= 0 || TINY ? ANY() : approx(g_out<T>, (T)1 / sq(A)))
// exponent argument: the bits of b as a signed integer, or a small one
template <class T> T ldx(T v, long long e) {
  const int c = e < -100000 ? -100000 : e > 100000 ? 100000 : (int)e;
  return sizeof(T) == 4 ? (T)ldexpf((float)v, c) : (T)ldexp((double)v, c);
}
#define BI ((long long)from<MakeSigned<T>>((Bits<T>)bits(B)))
OP2(MulByPow2_, MulByPow2(a, BitCast(RebindToSigned<D>(), b)), ldx(A, BI))
// every exponent near the interesting range: b's low 13 bits, sign extended
OP2(MulByPow2_near, MulByPow2(a, ShiftRight<sizeof(T) * 8 - 13>(ShiftLeft<sizeof(T) * 8 - 13>(BitCast(RebindToSigned<D>(), b)))), ldx(A, (long long)((u64)bits(B) << 51) >> 51))
OP2(MulByFloorPow2_, MulByFloorPow2(a, b),
    N_(A) && absf(B) == INF_ ? ANY() : N_(A) || N_(B) ? nanv<T>() : B == -INF_ ? (T)(A * (T)0) : B == INF_ ? (T)(A * B) : ldx(A, (long long)floor((double)(B < (T)-1e6 ? (T)-1e6 : B > (T)1e6 ? (T)1e6 : B))))
// sign-dependent selection
OP1(ZeroIfNegative_, ZeroIfNegative(a), N_(A) ? ANY() : A < 0 || (A == 0) ? (A == 0 ? ANY() : (T)0) : A)
OP3(IfNegativeThenElse_, IfNegativeThenElse(a, b, c), N_(A) || (A == 0 && sb(A)) ? ANY() : sb(A) ? B : C)
OP3(IfNegSel, IfNegativeThenElse(a, b, c), sb(A) ? B : C)
OP2(IfNegativeThenElseZero_, IfNegativeThenElseZero(a, b), sb(A) ? B : (T)0)
OP2(IfNegativeThenZeroElse_, IfNegativeThenZeroElse(a, b), sb(A) ? (T)0 : B)
OP2(IfNegNeg, IfNegativeThenNegOrUndefIfZero(a, b), A == 0 || N_(A) ? ANY() : N_(B) ? B : A < 0 ? sgn(B, !sb(B)) : B)
OP1(Inf_, Inf(d), (T)HUGE_VALF)
OP1(SignBit_, SignBit(d), sgn((T)0, true))
// masked
#define MM2(no, cond) !M ? no : (MM(cond))
OP3M(MaskedMinOr_, MaskedMinOr(c, m, a, b), MM2(C, A < B))
OP3M(MaskedMaxOr_, MaskedMaxOr(c, m, a, b), MM2(C, A > B))
OP3M(MaskedAddOr_, MaskedAddOr(c, m, a, b), M ? A + B : C)
OP3M(MaskedSubOr_, MaskedSubOr(c, m, a, b), M ? A - B : C)
OP3M(MaskedMulOr_, MaskedMulOr(c, m, a, b), M ? A * B : C)
OP3M(MaskedDivOr_, MaskedDivOr(c, m, a, b), M ? A / B : C)
OP2M(MaskedSqrtOr_, MaskedSqrtOr(b, m, a), M ? sq(A) : B)
OP2M(MaskedAbsOr_, MaskedAbsOr(b, m, a), M ? sgn(A, false) : B)
OP1M(MaskedAbs_, MaskedAbs(m, a), M ? sgn(A, false) : (T)0)
OP1M(MaskedSqrt_, MaskedSqrt(m, a), M ? sq(A) : (T)0)
OP2M(MaskedMax_, MaskedMax(m, a, b), MM2((T)0, A > B))
OP2M(MaskedAdd_, MaskedAdd(m, a, b), M ? A + B : (T)0)
OP2M(MaskedSub_, MaskedSub(m, a, b), M ? A - B : (T)0)
OP2M(MaskedMul_, MaskedMul(m, a, b), M ? A * B : (T)0)
OP2M(MaskedDiv_, MaskedDiv(m, a, b), M ? A / B : (T)0)
OP3M(MaskedMulAdd_, MaskedMulAdd(m, a, b, c), M ? FMA_(A, B, C) : (T)0)
OP3M(MaskedNegMulAdd_, MaskedNegMulAdd(m, a, b, c), M ? FMA_(-A, B, C) : (T)0)
OP3M(MaskedMulAddOr_, MaskedMulAddOr(a, m, a, b, c), M ? FMA_(A, B, C) : A)
// Complex: small integers so that every rounding agrees (exactness), neighbours differ.
template <class T> T sm(T v) { return (T)((int)(bits(v) % 31) - 15); }
template <class V, class D> V smv(D d, V v) {  // same mapping on vectors, via memory
  alignas(64) TFromD<D> t[64 / sizeof(TFromD<D>) + 1];
  StoreU(v, d, t);
  for (size_t k = 0; k < Lanes(d); k++) t[k] = sm(t[k]);
  return LoadU(d, t);
}
#define E_ (i & ~(size_t)1)
#define RE(p) sm(p[E_])
#define IM(p) sm(p[E_ + 1])
#define SA smv(d, a)
#define SB smv(d, b)
#define SC smv(d, c)
#define CM_RE(s) (RE(pa) * RE(pb) - s IM(pa) * IM(pb))
#define CM_IM(s) (IM(pa) * RE(pb) + s RE(pa) * IM(pb))
#define CMUL (i & 1 ? CM_IM(+) : CM_RE(+))
#define CMULC (i & 1 ? CM_IM(-) : CM_RE(-))
#define Z0(v) ((v) + (T)0)
OPX(ComplexConj_, A1, 2, 0, ComplexConj(a), i & 1 ? (N_(A) ? A : sgn(A, !sb(A))) : A)
OPX(MulComplex_, A2, 2, 0, Add(MulComplex(SA, SB), Zero(d)), Z0(CMUL))
OPX(MulComplexConj_, A2, 2, 0, Add(MulComplexConj(SA, SB), Zero(d)), Z0(CMULC))
OPX(MulComplexAdd_, A3, 2, 0, Add(MulComplexAdd(SA, SB, SC), Zero(d)), Z0(CMUL + sm(pc[i])))
OPX(MulComplexConjAdd_, A3, 2, 0, Add(MulComplexConjAdd(SA, SB, SC), Zero(d)), Z0(CMULC + sm(pc[i])))
OPX(MaskedMulComplexConjAdd_, A3 | MASK, 2, 0, Add(MaskedMulComplexConjAdd(m, SA, SB, SC), Zero(d)), M ? Z0(CMULC + sm(pc[i])) : (T)0)
OPX(MaskedMulComplexConj_, A2 | MASK, 2, 0, Add(MaskedMulComplexConj(m, SA, SB), Zero(d)), M ? Z0(CMULC) : (T)0)
OPX(MaskedMulComplexOr_, A3 | MASK, 2, 0, Add(MaskedMulComplexOr(SC, m, SA, SB), Zero(d)), M ? Z0(CMUL) : Z0(sm(pc[i])))

void all() {
#if PART == 0
  types<Add_, FH_>(); types<Sub_, FH_>(); types<Mul_, FH_>(); types<Div_, FH_>();
  types<OpPlus, FH_>(); types<OpMinus, FH_>(); types<OpMul, FH_>(); types<OpDiv, FH_>(); types<AddSub_, FH_>();
  types<Sqrt_, FH_>(); types<Neg_, FH_>(); types<Abs_, FH_>(); types<AbsDiff_, FH_>(); types<CopySign_, FH_>(); types<CopySignToAbs_, FH_>();
  types<Min_, FH_>(); types<Max_, FH_>(); types<MinMagnitude_, FH_>(); types<MaxMagnitude_, FH_>(); types<Clamp_, FH_>();
  types<MulAdd_, FH_>(); types<NegMulAdd_, FH_>(); types<MulSub_, FH_>(); types<NegMulSub_, FH_>(); types<MulAddSub_, FH_>(); types<MulSubAdd_, FH_>();
  types<Round_, FH_>(); types<Trunc_, FH_>(); types<Ceil_, FH_>(); types<Floor_, FH_>(); types<MulRound_, FH_>();
  types<IsNaN_, FH_>(); types<IsInf_, FH_>(); types<IsFinite_, FH_>(); types<IsEitherNaN_, FH_>(); types<MaskedIsNaN_, FH_>();
#else
  types<GetExponent_, FH_>(); types<GetBiasedExponent_, FH_>(); types<ApproxRecip, FH_>(); types<ApproxRsqrt, FH_>(); types<MaskedApproxRecip, FH_>(); types<MaskedApproxRsqrt, FH_>();
  types<MulByPow2_, FH_>(); types<MulByPow2_near, FH_>(); types<MulByFloorPow2_, FH_>();
  types<ZeroIfNegative_, FH_>(); types<IfNegSel, FH_>(); types<IfNegativeThenElseZero_, FH_>(); types<IfNegativeThenZeroElse_, FH_>(); types<IfNegNeg, FH_>(); types<SignBit_, FH_>(); types<Inf_, FH_>();
  types<MaskedMinOr_, FH_>(); types<MaskedMaxOr_, FH_>(); types<MaskedAddOr_, FH_>(); types<MaskedSubOr_, FH_>(); types<MaskedMulOr_, FH_>(); types<MaskedDivOr_, FH_>(); types<MaskedSqrtOr_, FH_>();
  types<MaskedAbsOr_, FH_>(); types<MaskedAbs_, FH_>(); types<MaskedSqrt_, FH_>(); types<MaskedMax_, FH_>(); types<MaskedAdd_, FH_>(); types<MaskedSub_, FH_>(); types<MaskedMul_, FH_>(); types<MaskedDiv_, FH_>();
  types<MaskedMulAdd_, FH_>(); types<MaskedNegMulAdd_, FH_>(); types<MaskedMulAddOr_, FH_>();
#if HWY_TARGET != HWY_SCALAR
  types<ComplexConj_, FH_>(); types<MulComplex_, FH_>(); types<MulComplexConj_, FH_>(); types<MulComplexAdd_, FH_>(); types<MulComplexConjAdd_, FH_>();
  types<MaskedMulComplexConjAdd_, FH_>(); types<MaskedMulComplexConj_, FH_>(); types<MaskedMulComplexOr_, FH_>();
#endif
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
