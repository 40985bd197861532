// C27: scalar building blocks (hwy/base.h, hwy/print.cc).
#include <limits>
#include <string>
#include <vector>
#include "ex.h"
#ifdef VF_NO128
#undef __SIZEOF_INT128__
#endif
#include <hwy/base.h>
#include <hwy/print.h>
#include <limits>
#include <string>
#include <vector>
#include "ex.h"
using namespace hwy;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef __int128 X;
typedef unsigned __int128 UX;
namespace {
template <class B, class T> B bc(T v) { static_assert(sizeof(B) == sizeof(T), ""); B b; memcpy((void*)&b, (const void*)&v, sizeof b); return b; }
u16 h2b(float16_t h) { return bc<u16>(h); }
u16 b2b(bfloat16_t h) { return bc<u16>(h); }
// IEEE rounding to a format with M mantissa and E exponent bits, to nearest even, from an exact value sign * m * 2^e
template <class U> inline u32 round_to(bool sign, U m, int e, int M, int E) {
  const u32 s = (u32)sign << (M + E), bias = (1u << (E - 1)) - 1, inf = ((1u << E) - 1) << M;
  if (m == 0) return s;
  const int top = 63 - __builtin_clzll((u64)m);
  int q = top + e - M;                       // exponent of the last place if normal
  const int minq = 1 - (int)bias - M;
  if (q < minq) q = minq;
  U r;
  if (e >= q) r = m << (e - q);
  else {
    const int sh = q - e;
    if (sh > 60) r = 0;
    else {
      r = m >> sh;
      const U rem = m - (r << sh), half = (U)1 << (sh - 1);
      if (rem > half || (rem == half && (r & 1))) r++;
    }
  }
  // r * 2^q, r <= 2^(M+1)
  u64 enc;
  if (r >> (M + 1)) { r >>= 1; q++; }
  if (r >> M) enc = ((u64)(q - minq + 1) << M) + (u64)(r - ((U)1 << M));
  else enc = (u64)r;
  return enc >= inf ? s | inf : s | (u32)enc;
}
bool nanb(u32 b, int M, int E) { return (b & ((1u << (M + E)) - 1)) > ((1u << E) - 1) << M; }
u32 from32(u32 b, int M, int E, bool* nan) {
  const u32 ex = b >> 23 & 255, m = b & 0x7fffff;
  *nan = ex == 255 && m;
  if (ex == 255) return (b >> 31) << (M + E) | ((1u << E) - 1) << M;
  return round_to(b >> 31, (u64)(ex ? m | 0x800000 : m), (ex ? (int)ex : 1) - 150, M, E);
}
u32 from64(u64 b, int M, int E, bool* nan) {
  const u32 ex = b >> 52 & 2047;
  const u64 m = b & ((1ull << 52) - 1);
  *nan = ex == 2047 && m;
  if (ex == 2047) return (u32)(b >> 63) << (M + E) | ((1u << E) - 1) << M;
  return round_to(b >> 63, ex ? m | 1ull << 52 : m, (ex ? (int)ex : 1) - 1075, M, E);
}
u32 to32(u16 b, int M, int E) {  // exact
  const u32 s = (u32)(b >> 15) << 31, ex = b >> M & ((1u << E) - 1), m = b & ((1u << M) - 1);
  if (ex == (1u << E) - 1) return s | 0x7f800000 | m << (23 - M);
  if (ex) { const int e = (int)ex - ((1 << (E - 1)) - 1) + 127; return s | (u32)e << 23 | m << (23 - M); }
  return s | round_to(false, (u64)m, 1 - ((1 << (E - 1)) - 1) - M, 23, 8);
}
// ---------------------------------------------------------------- float16, bfloat16
void f32s(u64 lo, u64 hi) {
  for (u64 k = lo; k < hi; k++) {
    const u32 b = (u32)k;
    const float f = bc<float>(b);
    bool nan;
    u32 w = from32(b, 10, 5, &nan);
    const u32 g = h2b(F16FromF32(f));
    if (nan ? !nanb(g, 10, 5) : g != w) { ex::at("F16FromF32(%08x)", b); EX_FAIL("got %04x, expected %04x", g, w); }
    w = from32(b, 7, 8, &nan);
    const u32 h = b2b(BF16FromF32(f));
    if (nan ? !nanb(h, 7, 8) : h != w) { ex::at("BF16FromF32(%08x)", b); EX_FAIL("got %04x, expected %04x", h, w); }
    if (nan && (h >> 15 != b >> 31 || g >> 15 != b >> 31)) {}  // the sign of a NaN is not specified
    if (ex::many()) return;
  }
  ex::add((hi - lo) * 2, hi - lo);
}
void halves() {
  if (ex::enter("halves")) {
    for (u32 b = 0; b < 65536; b++) {
      const float16_t h = bc<float16_t>((u16)b);
      const bfloat16_t q = bc<bfloat16_t>((u16)b);
      ex::at("%04x", b);
      const u32 fh = bc<u32>(F32FromF16(h)), fq = bc<u32>(F32FromBF16(q));
      if (nanb(b, 10, 5) ? !nanb(fh, 23, 8) : fh != to32((u16)b, 10, 5)) EX_FAIL("F32FromF16 returned %08x, expected %08x", fh, to32((u16)b, 10, 5));
      if (nanb(b, 7, 8) ? !nanb(fq, 23, 8) : fq != b << 16) EX_FAIL("F32FromBF16 returned %08x", fq);
      alignas(2) const u16 mem = (u16)b;
      if (!nanb(b, 10, 5) && bc<u32>(F32FromF16Mem(&mem)) != fh) EX_FAIL("F32FromF16Mem differs");
      if (!nanb(b, 7, 8) && bc<u32>(F32FromBF16Mem(&mem)) != fq) EX_FAIL("F32FromBF16Mem differs");
      if (!nanb(b, 10, 5) && h2b(F16FromF32(F32FromF16(h))) != b) EX_FAIL("F16 does not round-trip");
      if (!nanb(b, 7, 8) && b2b(BF16FromF32(F32FromBF16(q))) != b) EX_FAIL("BF16 does not round-trip");
      if (!nanb(b, 10, 5)) {
        if (ConvertScalarTo<float>(h) != F32FromF16(h) || ConvertScalarTo<double>(h) != (double)F32FromF16(h)) EX_FAIL("ConvertScalarTo from f16");
        if (h2b(ConvertScalarTo<float16_t>(h)) != b || h2b(ConvertScalarTo<float16_t>((double)F32FromF16(h))) != b || h2b(ConvertScalarTo<float16_t>(F32FromF16(h))) != b) EX_FAIL("ConvertScalarTo to f16");
        bool n;
        const u32 w = from32(fh, 7, 8, &n);
        if (b2b(ConvertScalarTo<bfloat16_t>(h)) != w) EX_FAIL("ConvertScalarTo f16 to bf16: %04x, expected %04x", b2b(ConvertScalarTo<bfloat16_t>(h)), w);
      }
      if (!nanb(b, 7, 8)) {
        bool n;
        const u32 w = from32(fq, 10, 5, &n);
        if (h2b(ConvertScalarTo<float16_t>(q)) != w) EX_FAIL("ConvertScalarTo bf16 to f16: %04x, expected %04x", h2b(ConvertScalarTo<float16_t>(q)), w);
        if (ConvertScalarTo<float>(q) != F32FromBF16(q) || b2b(ConvertScalarTo<bfloat16_t>((double)F32FromBF16(q))) != b || b2b(ConvertScalarTo<bfloat16_t>(F32FromBF16(q))) != b) EX_FAIL("ConvertScalarTo bf16");
      }
      // classification
      if (ScalarIsNaN(h) != nanb(b, 10, 5) || ScalarIsInf(h) != ((b & 0x7fff) == 0x7c00) || ScalarIsFinite(h) != ((b & 0x7fff) < 0x7c00) || ScalarSignBit(h) != (b >> 15 != 0)) EX_FAIL("classification of f16");
      if (ScalarIsNaN(q) != nanb(b, 7, 8) || ScalarIsInf(q) != ((b & 0x7fff) == 0x7f80) || ScalarIsFinite(q) != ((b & 0x7fff) < 0x7f80) || ScalarSignBit(q) != (b >> 15 != 0)) EX_FAIL("classification of bf16");
      if (h2b(ScalarAbs(h)) != (b & 0x7fff) || b2b(ScalarAbs(q)) != (b & 0x7fff)) EX_FAIL("ScalarAbs");
      for (u16 s : {0, 0x8000, 0x7fff, 0xffff, 0x3c00, 0xbc00}) {
        const u32 w = (b & 0x7fff) | (s & 0x8000);
        if (h2b(ScalarCopySign(h, bc<float16_t>(s))) != w || b2b(ScalarCopySign(q, bc<bfloat16_t>(s))) != w) EX_FAIL("ScalarCopySign with sign of %04x", s);
      }
      ex::add(20, 1);
      if (ex::many()) return;
    }
    ex::group_end();
  }
  if (ex::enter("comparisons")) {
    std::vector<u16> S;
    for (u32 b = 0; b < 65536; b++) if ((b & 0xff) == 0 || (b & 0xff) == 0xff || (b & 0xff) == 1 || (b & 0x7fff) < 4 || ((b & 0x7fff) >= 0x7bfe && (b & 0x7fff) < 0x7c02) || (ex::thorough() && b % 5 == 0)) S.push_back((u16)b);
    for (u16 x : S) for (u16 y : S) {
      ex::at("%04x, %04x", x, y);
      const float16_t a = bc<float16_t>(x), b = bc<float16_t>(y);
      const float fa = bc<float>(to32(x, 10, 5)), fb = bc<float>(to32(y, 10, 5));
      if ((a == b) != (fa == fb) || (a != b) != (fa != fb) || (a < b) != (fa < fb) || (a <= b) != (fa <= fb) || (a > b) != (fa > fb) || (a >= b) != (fa >= fb)) EX_FAIL("comparison of f16");
      const bfloat16_t p = bc<bfloat16_t>(x), q = bc<bfloat16_t>(y);
      const float fp = bc<float>((u32)x << 16), fq = bc<float>((u32)y << 16);
      if ((p == q) != (fp == fq) || (p != q) != (fp != fq) || (p < q) != (fp < fq) || (p <= q) != (fp <= fq) || (p > q) != (fp > fq) || (p >= q) != (fp >= fq)) EX_FAIL("comparison of bf16");
      ex::add(12, 1);
#if HWY_HAVE_SCALAR_F16_OPERATORS
      auto chk = [&](const char* nm, float16_t g, double e) {
        bool nan;
        const u32 w = from64(bc<u64>(e), 10, 5, &nan);
        if (nan ? !nanb(h2b(g), 10, 5) : h2b(g) != w) EX_FAIL("%s is %04x, expected %04x", nm, h2b(g), w);
      };
      chk("f16 sum", a + b, (double)fa + fb);
      chk("f16 difference", a - b, (double)fa - fb);
      chk("f16 product", a * b, (double)fa * fb);
      chk("f16 quotient", a / b, (double)fa / (double)fb);
#endif
      if (ex::many()) return;
    }
    ex::group_end();
  }
  if (ex::enter("from double")) {
    u64 n = 0;
    auto one = [&](u64 b) {
      const double d = bc<double>(b);
      bool nan;
      n++;
      u32 w = from64(b, 10, 5, &nan), g = h2b(F16FromF64(d));
      if (nan ? !nanb(g, 10, 5) : g != w) { ex::at("F16FromF64(%016llx)", (unsigned long long)b); EX_FAIL("got %04x, expected %04x", g, w); }
      w = from64(b, 7, 8, &nan), g = b2b(BF16FromF64(d));
      if (nan ? !nanb(g, 7, 8) : g != w) { ex::at("BF16FromF64(%016llx)", (unsigned long long)b); EX_FAIL("got %04x, expected %04x", g, w); }
    };
    // every representable value of both formats, the ties between neighbours, and the doubles around both at every distance 2^k
    for (u32 b = 0; b < 65536; b++) {
      if (b % 0x7c00 == 0 && ex::many()) return;
      for (int f = 0; f < 2; f++) {
        if (f ? nanb(b, 7, 8) : nanb(b, 10, 5)) continue;
        const double d = bc<float>(f ? b << 16 : to32((u16)b, 10, 5));
        const u16 nx = (u16)(b + 1);
        double e = d;
        if (!(f ? nanb(nx, 7, 8) : nanb(nx, 10, 5))) { const double v = bc<float>(f ? (u32)nx << 16 : to32(nx, 10, 5)); if (v - v == 0) e = v; }
        for (double c : {d, (d + e) / 2, d * 0.75 + e * 0.25, d * 0.25 + e * 0.75}) {
          const u64 k = bc<u64>(c);
          one(k);
          for (int s = 0; s < 52; s += ex::thorough() ? 1 : 3) one(k + (1ull << s)), one(k - (1ull << s));
          one(k + 1), one(k - 1);
        }
      }
    }
    // every exponent, several mantissas
    for (u32 e = 0; e < 4096; e++) for (int s = 0; s < 52; s++) for (int v = 0; v < 4; v++) {
      const u64 m = v == 0 ? 1ull << s : v == 1 ? (1ull << s) - 1 : v == 2 ? (((1ull << 52) - 1) >> s << s) : 3ull << s;
      one((u64)e << 52 | (m & ((1ull << 52) - 1)));
    }
    ex::add(n * 2, n);
    ex::group_end();
  }
}
// ---------------------------------------------------------------- integers
template <class T> std::vector<T> values(bool dense) {
  std::vector<T> v;
  auto put = [&](T x) { v.push_back(x); };
  const int W = sizeof(T) * 8;
  if (W <= 16 && dense) { for (u32 k = 0; k < 1u << W; k++) put((T)k); return v; }
  for (u64 k = 0; k < 40; k++) put((T)k), put((T)(0 - k)), put((T)(k * 0x9e3779b97f4a7c15ull)), put((T)((k * 0x9e3779b97f4a7c15ull) >> 32));
  for (int i = 0; i < W; i++) for (int j = -2; j <= 2; j++) put((T)((u64)1 << i) + (T)j), put((T)(0 - ((u64)1 << i) + (u64)j));
  if (dense) for (int i = 0; i < W; i++) for (int j = 0; j < i; j++) put((T)((u64)1 << i | (u64)1 << j)), put((T) ~((u64)1 << i | (u64)1 << j)), put((T)(((u64)1 << i) - ((u64)1 << j)));
  return v;
}
template <class T> int pop(T x) { int n = 0; for (int k = 0; k < (int)sizeof(T) * 8; k++) n += (u64)x >> k & 1; return n; }
template <class T> void ints(const char* nm) {
  if (!ex::enter(nm)) return;
  typedef MakeUnsigned<T> TU;
  const int W = sizeof(T) * 8;
  for (T x : values<T>(true)) {
    ex::at("%lld", (long long)x);
    if (PopCount(x) != (size_t)pop((TU)x)) EX_FAIL("PopCount is %zu", PopCount(x));
    if (x > 0) {
      int lo = 0, hi = W - 1;
      while (!((u64)x >> lo & 1)) lo++;
      while (!((u64)x >> hi & 1)) hi--;
      if (FloorLog2(x) != (size_t)hi) EX_FAIL("FloorLog2 is %zu, expected %d", FloorLog2(x), hi);
      const int cl = lo == hi ? hi : hi + 1;
      if (CeilLog2(x) != (size_t)cl) EX_FAIL("CeilLog2 is %zu, expected %d", CeilLog2(x), cl);
    }
    for (int s = 0; s < W; s++) {
      // floor(x / 2^s)
      const X w = std::is_signed<T>::value && x < 0 ? -(((-(X)x) + (((X)1 << s) - 1)) >> s) : (X)x >> s;
      if ((X)ScalarShr(x, s) != w) EX_FAIL("ScalarShr by %d is %lld, expected %lld", s, (long long)ScalarShr(x, s), (long long)w);
    }
    const T wa = std::is_signed<T>::value && x < 0 ? (T)(TU)(0 - (u64)x) : x;
    if (ScalarAbs(x) != wa) EX_FAIL("ScalarAbs is %lld", (long long)ScalarAbs(x));
    if (ScalarSignBit(x) != (bool)((u64)x >> (W - 1) & 1)) EX_FAIL("ScalarSignBit");
    if (!ScalarIsFinite(x)) EX_FAIL("ScalarIsFinite");
    char s[101], w[101];
    memset(s, 0x7e, 101);
    hwy::detail::ToString(hwy::detail::MakeTypeInfo<T>(), &x, s);
    if (sizeof(T) == 1) std::is_signed<T>::value ? snprintf(w, 100, "%d", (int)x) : snprintf(w, 100, "0x%02X", (int)x);
    else if (sizeof(T) == 2) snprintf(w, 100, "0x%04X", (unsigned)(u16)x);
    else if (sizeof(T) == 4) snprintf(w, 100, "%lld", (long long)x);
    else snprintf(w, 100, "0x%016llx", (unsigned long long)x);
    if (strcmp(s, w) || s[100] != 0x7e) EX_FAIL("ToString is %s, expected %s", s, w);
    ex::add(W + 6, 1);
    if (ex::many()) return;
  }
  const auto S = values<T>(false);
  for (T x : S) for (T y : S) {
    ex::at("AddWithWraparound(%lld, %lld)", (long long)x, (long long)y);
    if (AddWithWraparound(x, y) != (T)(TU)((u64)x + (u64)y)) EX_FAIL("got %lld", (long long)AddWithWraparound(x, y));
    ex::add(1, 1);
  }
  if (LimitsMax<T>() != std::numeric_limits<T>::max() || LimitsMin<T>() != std::numeric_limits<T>::min() || HighestValue<T>() != std::numeric_limits<T>::max() || LowestValue<T>() != std::numeric_limits<T>::lowest() || PositiveInfOrHighestValue<T>() != std::numeric_limits<T>::max() || NegativeInfOrLowestValue<T>() != std::numeric_limits<T>::min() || IsSigned<T>() != std::is_signed<T>::value || IsFloat<T>() || SignMask<T>() != (TU)((u64)1 << (W - 1))) EX_FAIL("limits");
  for (size_t N : {1, 2, 3, 4, 16, 64, 99999}) {
    char s[101], w[101];
    hwy::detail::TypeName(hwy::detail::MakeTypeInfo<T>(), N, s);
    if (N == 1) snprintf(w, 100, "%c%d", std::is_signed<T>::value ? 'i' : 'u', W); else snprintf(w, 100, "%c%dx%zu", std::is_signed<T>::value ? 'i' : 'u', W, N);
    if (strcmp(s, w)) EX_FAIL("TypeName is %s, expected %s", s, w);
  }
  ex::group_end();
}
template <class T> void floats(const char* nm, int M) {
  if (!ex::enter(nm)) return;
  typedef MakeUnsigned<T> TU;
  const int W = sizeof(T) * 8;
  const TU S = (TU)1 << (W - 1), E = (TU)(S - 1) & (TU) ~(((TU)1 << M) - 1);
  ex::at("constants");
  if (MantissaBits<T>() != M || ExponentBits<T>() != W - 1 - M || SignMask<T>() != S || ExponentMask<T>() != E || MantissaMask<T>() != (TU)(((TU)1 << M) - 1)) EX_FAIL("masks");
  if ((TU)MaxExponentField<T>() != (TU)(E >> M) || (TU)MaxExponentTimes2<T>() != (TU)(E << 1)) EX_FAIL("exponents");
  if (bc<TU>(HighestValue<T>()) != (TU)(E - 1) || bc<TU>(LowestValue<T>()) != (TU)((E - 1) | S)) EX_FAIL("extreme values");
  if (bc<TU>(PositiveInfOrHighestValue<T>()) != E || bc<TU>(NegativeInfOrLowestValue<T>()) != (TU)(E | S)) EX_FAIL("infinities");
  const TU bias = (TU)((E >> M) / 2);
  if (bc<TU>(Epsilon<T>()) != (TU)((TU)(bias - (TU)M) << M)) EX_FAIL("Epsilon");
  if (bc<TU>(MantissaEnd<T>()) != (TU)((TU)(bias + (TU)M) << M)) EX_FAIL("MantissaEnd");
  if (IsFloat<T>() == std::is_same<T, bfloat16_t>::value || !IsSigned<T>()) EX_FAIL("traits");
  for (TU b : values<TU>(true)) for (TU o : {(TU)0, (TU)(E - 3), (TU)(S - 3), (TU)(S | (TU)(E - 3))}) {
    const TU k = b + o, a = k & (TU)(S - 1);
    const T v = bc<T>(k);
    ex::at("%llx", (unsigned long long)k);
    if (ScalarIsNaN(v) != (a > E) || ScalarIsInf(v) != (a == E) || ScalarIsFinite(v) != (a < E) || ScalarSignBit(v) != (k >= S)) EX_FAIL("classification");
    if (bc<TU>(ScalarAbs(v)) != a) EX_FAIL("ScalarAbs");
    for (TU s : {(TU)0, S, (TU)~(TU)0, (TU)(S - 1), E}) if (bc<TU>(ScalarCopySign(v, bc<T>(s))) != (TU)(a | (s & S))) EX_FAIL("ScalarCopySign");
    char st[101];
    memset(st, 0x7e, 101);
    hwy::detail::ToString(hwy::detail::MakeTypeInfo<T>(), &v, st);
    if (st[100] != 0x7e || !memchr(st, 0, 100)) EX_FAIL("ToString overruns its buffer");
    else if (a < E && a < bc<TU>(ConvertScalarTo<T>(1.0f)) + (TU)((TU)20 << M)) {  // below 2^20: all digits are there
      const double d = strtod(st, nullptr), x = (double)ConvertScalarTo<double>(v);
      const double rel = sizeof(T) == 2 ? 1e-3 : sizeof(T) == 4 ? 1e-9 : 1e-18, lim = sizeof(T) == 2 ? M == 7 ? 1e-3 : 1e-4 : sizeof(T) == 4 ? 1e-6 : 1e-9;
      const double ax = x < 0 ? -x : x, er = d < x ? x - d : d - x;
      if (er > (ax < lim ? ax * (rel > 1e-15 ? rel : 1e-15) : rel > ax * 1e-15 ? rel : ax * 1e-15)) EX_FAIL("ToString is %s for %.20g", st, x);
    }
    ex::add(10, 1);
    if (ex::many()) return;
  }
  ex::group_end();
}
void scans() {
  if (ex::enter("bit scans")) {
    auto one = [&](u64 x) {
      if (!x) return;
      int lo = 0, hi = 63;
      while (!(x >> lo & 1)) lo++;
      while (!(x >> hi & 1)) hi--;
      if (Num0BitsBelowLS1Bit_Nonzero64(x) != (size_t)lo || Num0BitsAboveMS1Bit_Nonzero64(x) != (size_t)(63 - hi) || PopCount(x) != (size_t)pop(x)) { ex::at("%llx", (unsigned long long)x); EX_FAIL("64-bit scan"); }
      const u32 y = (u32)x;
      if (y && x >> 32 == 0 && (Num0BitsBelowLS1Bit_Nonzero32(y) != (size_t)lo || Num0BitsAboveMS1Bit_Nonzero32(y) != (size_t)(31 - hi))) { ex::at("%x", y); EX_FAIL("32-bit scan"); }
      ex::add(4, 1);
    };
    for (int s = 0; s < 64; s += 8) for (u64 k = 0; k < 65536; k++) one(k << s);
    for (int a = 0; a < 64; a++) for (int b = 0; b <= a; b++) for (int c = 0; c <= b; c++) {
      const u64 m = 1ull << a | 1ull << b | 1ull << c;
      one(m), one(~m), one((1ull << a) - (1ull << b) + c), one(m >> 32);
    }
    ex::group_end();
  }
  if (ex::enter("rounding")) {
    for (size_t a = 0; a < 2100; a++) for (size_t b = 1; b < 300; b++) {
      ex::at("%zu, %zu", a, b);
      size_t q = 0;
      while (q * b < a) q += a - q * b >= 64 * b ? 64 : 1;
      if (DivCeil(a, b) != q) EX_FAIL("DivCeil is %zu, expected %zu", DivCeil(a, b), q);
      if (RoundUpTo(a, b) != q * b) EX_FAIL("RoundUpTo is %zu, expected %zu", RoundUpTo(a, b), q * b);
      const size_t dn = q * b == a ? a : (q - 1) * b;
      if (RoundDownTo(a, b) != dn) EX_FAIL("RoundDownTo is %zu, expected %zu", RoundDownTo(a, b), dn);
      ex::add(3, 1);
      if (ex::many()) return;
    }
    for (size_t a : values<u64>(true)) for (size_t b : values<u64>(false)) {
      if (b == 0) continue;
      ex::at("%zu, %zu", a, b);
      if (RoundDownTo(a, b) != a / b * b) EX_FAIL("RoundDownTo is %zu", RoundDownTo(a, b));
      if ((UX)a + b - 1 > ~(u64)0) continue;
      const UX q = ((UX)a + b - 1) / b;
      if (DivCeil(a, b) != (size_t)q) EX_FAIL("DivCeil is %zu, expected %zu", DivCeil(a, b), (size_t)q);
      if (q * b <= ~(u64)0 && RoundUpTo(a, b) != (size_t)(q * b)) EX_FAIL("RoundUpTo is %zu", RoundUpTo(a, b));
      ex::add(3, 1);
    }
    ex::group_end();
  }
  if (ex::enter("Mul128")) {
    const auto V = values<u64>(true);
    std::vector<u64> H(V.begin(), V.end());
    const size_t n = H.size(), st = ex::thorough() ? 1 : 3;
    for (size_t i = 0; i < n; i++) for (size_t j = i % st; j < n; j += st) {
      const u64 a = H[i], b = H[j];
      u64 up = 0;
      i64 su = 0;
      const u64 lo = Mul128(a, b, &up);
      const UX w = (UX)a * b;
      ex::at("%llx * %llx", (unsigned long long)a, (unsigned long long)b);
      if (lo != (u64)w || up != (u64)(w >> 64)) EX_FAIL("unsigned product is %llx:%llx", (unsigned long long)up, (unsigned long long)lo);
      const i64 sl = Mul128((i64)a, (i64)b, &su);
      const X sw = (X)(i64)a * (i64)b;
      if ((u64)sl != (u64)sw || su != (i64)(sw >> 64)) EX_FAIL("signed product is %llx:%llx", (unsigned long long)su, (unsigned long long)sl);
      ex::add(2, 1);
      if (ex::many()) return;
    }
    ex::group_end();
  }
  if (ex::enter("Divisor")) {
    u64 n = 0;
    auto one = [&](u32 d, const Divisor& v, u32 x) {
      n++;
      if (v.Divide(x) != x / d || v.Remainder(x) != x % d) { ex::at("%u / %u", x, d); EX_FAIL("got %u remainder %u", v.Divide(x), v.Remainder(x)); }
    };
    auto div = [&](u32 d) {
      if (!d) return;
      const Divisor v(d);
      if (v.GetDivisor() != d) EX_FAIL("GetDivisor");
      const u32 m = 0xffffffffu / d * d;  // the largest multiple
      for (u32 x : {0u, 1u, d - 1, d, d + 1, 2 * d - 1, 2 * d, m - 1, m, m + 1, m - d - 1, m - d, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu}) one(d, v, x);
    };
    const u32 dense = ex::thorough() ? 1u << 27 : 1u << 21;
    for (u32 d = 1; d < dense && !ex::many(); d++) div(d);
    for (int k = 8; k < 33; k++) for (i64 j = -5000; j <= 5000; j++) { const i64 d = (i64)(1ull << k) + j; if (d > 0 && d < 1ll << 32) div((u32)d); }
    for (u32 d = 0x10001; d > 0x10000; d += ex::thorough() ? 997 : 9973) div(d);
    for (u32 d = 1; d < 300 && !ex::many(); d++) { const Divisor v(d); for (u32 x = 0; x < 100000; x++) one(d, v, x), one(d, v, 0xffffffffu - x), one(d, v, 0x80000000u + x), one(d, v, 0x80000000u - x); }
    for (u32 d : values<u32>(true)) if (d) { const Divisor v(d); for (u32 x : values<u32>(true)) one(d, v, x); if (ex::many()) break; }
    ex::add(n * 2, n);
    ex::group_end();
  }
  if (ex::enter("Divisor64")) {
    u64 n = 0;
    auto one = [&](u64 d, const Divisor64& v, u64 x) {
      n++;
      if (v.Divide(x) != x / d || v.Remainder(x) != x % d) { ex::at("%llu / %llu", (unsigned long long)x, (unsigned long long)d); EX_FAIL("got %llu remainder %llu", (unsigned long long)v.Divide(x), (unsigned long long)v.Remainder(x)); }
    };
    auto div = [&](u64 d) {
      if (!d) return;
      const Divisor64 v(d);
      if (v.GetDivisor() != d) EX_FAIL("GetDivisor");
      const u64 m = ~0ull / d * d;
      for (u64 x : std::initializer_list<u64>{0, 1, d - 1, d, d + 1, 2 * d - 1, 2 * d, m - 1, m, m + 1, m - d - 1, m - d, ~0ull >> 1, 1ull << 63, (1ull << 63) + 1, ~0ull - 1, ~0ull}) one(d, v, x);
    };
    const u64 dense = ex::thorough() ? 1u << 22 : 1u << 16;
    for (u64 d = 1; d < dense && !ex::many(); d++) div(d);
    for (int k = 8; k < 64; k++) for (i64 j = -500; j <= 500; j++) div((1ull << k) + (u64)j);
    for (i64 j = -5000; j < 0; j++) div((u64)j);
    for (u64 d : values<u64>(true)) if (d) { const Divisor64 v(d); for (u64 x : values<u64>(ex::thorough())) one(d, v, x); if (ex::many()) break; }
    ex::add(n * 2, n);
    ex::group_end();
  }
}
template <class K, class T> void orders(const char* nm, K (*mk)(T hi, T lo), bool whole) {
  if (!ex::enter(nm)) return;
  const T v[] = {0, 1, 2, (T)~(T)0, (T)(~(T)0 - 1), (T)((T)1 << (sizeof(T) * 8 - 1)), (T)(((T)1 << (sizeof(T) * 8 - 1)) - 1)};
  for (T a : v) for (T b : v) for (T c : v) for (T d : v) {
    const K x = mk(a, b), y = mk(c, d);
    ex::at("(%llx,%llx) (%llx,%llx)", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d);
    const bool lt = a != c ? a < c : whole && b < d, gt = a != c ? a > c : whole && b > d;
    if ((x < y) != lt || (x > y) != gt || (x == y) != (!lt && !gt)) EX_FAIL("order");
    ex::add(3, 1);
  }
  ex::group_end();
}
void bytes() {
  if (!ex::enter("bytes")) return;
  u8 a[80], b[80];
  for (size_t off = 0; off < 9; off++) for (size_t n = 0; n <= 64; n++) for (int z = 0; z < 2; z++) {
    for (size_t i = 0; i < 80; i++) a[i] = (u8)(i * 7 + 1), b[i] = (u8)(200 - i);
    ex::at("offset %zu length %zu %s", off, n, z ? "ZeroBytes" : "CopyBytes");
    if (z) ZeroBytes(b + off, n); else CopyBytes(a + 3, b + off, n);
    for (size_t i = 0; i < 80; i++) {
      const u8 w = i >= off && i < off + n ? z ? 0 : a[3 + i - off] : (u8)(200 - i);
      if (b[i] != w) { EX_FAIL("byte %zu is %d, expected %d", i, b[i], w); break; }
    }
    ex::add(1, 1);
  }
  for (size_t i = 0; i < 80; i++) a[i] = (u8)(i * 7 + 1), b[i] = 9;
  CopyBytes<13>(a, b);
  ZeroBytes<5>(b + 20);
  u64 p = 0x0123456789abcdefull, q = 0;
  CopySameSize(&p, &q);
  for (size_t i = 0; i < 80; i++) if (b[i] != (i < 13 ? a[i] : i >= 20 && i < 25 ? 0 : 9)) { ex::at("fixed size"); EX_FAIL("byte %zu", i); }
  if (p != q) EX_FAIL("CopySameSize");
  if (BitCastScalar<u64>(1.0) != 0x3ff0000000000000ull || BitCastScalar<float>((u32)0x40000000) != 2.0f || BitCastScalar<i32>((u32)0xffffffffu) != -1) EX_FAIL("BitCastScalar");
  ex::group_end();
}
}  // namespace
static void all() {
#if PART < 8
  char nm[40];
  snprintf(nm, sizeof nm, "float to halves %d", PART);
  if (ex::enter(nm)) {
    f32s((u64)PART << 29, (u64)(PART + 1) << 29);
    ex::group_end();
  }
#elif PART == 8
  halves();
  floats<float>("float", 23);
  floats<double>("double", 52);
  floats<float16_t>("float16_t", 10);
  floats<bfloat16_t>("bfloat16_t", 7);
#else
  ints<u8>("u8"); ints<i8>("i8"); ints<u16>("u16"); ints<i16>("i16"); ints<u32>("u32"); ints<i32>("i32"); ints<u64>("u64"); ints<i64>("i64");
  scans();
  bytes();
  orders<uint128_t, u64>("uint128_t", [](u64 h, u64 l) { uint128_t r; r.hi = h, r.lo = l; return r; }, true);
  orders<K64V64, u64>("K64V64", [](u64 h, u64 l) { K64V64 r; r.key = h, r.value = l; return r; }, false);
  orders<K32V32, u32>("K32V32", [](u32 h, u32 l) { K32V32 r; r.key = h, r.value = l; return r; }, false);
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
