// Body of one translation unit that dispatches dynamically. The including file
// defines TU (its namespace), DTU_FILE (its own path) and target macros.
#include "dispatch_api.h"
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE DTU_FILE
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
HWY_BEFORE_NAMESPACE();
namespace TU {
namespace HWY_NAMESPACE {
typedef DRet Ret;
int64_t F0() { return HWY_TARGET; }
void FVoid(int64_t* out) { *out = HWY_TARGET; }
Ret FMany(uint64_t a, double b, const void* p, const uint64_t& c, uint8_t d, float e, int64_t f, int64_t g, int64_t h) {
  Ret r;
  r.target = HWY_TARGET;
  r.a = a + d + f + g + h;
  r.b = b + e;
  r.p = p;
  r.big[0] = c;
  r.big[1] = (uint64_t)(uintptr_t)&c;
  r.big[2] = ~a;
  return r;
}
uint64_t& FRef(int64_t* out, uint64_t& x) { *out = HWY_TARGET; return x; }
template <typename T> struct Tm { static int64_t Fn(T x, T* y) { *y = x; return HWY_TARGET; } };
template <typename T> int64_t FT(T x, T* y) { *y = x; return HWY_TARGET; }
template <typename T> int64_t FT2(T x, T* y) { *y = static_cast<T>(x + 1); return HWY_TARGET; }
}  // namespace HWY_NAMESPACE
}  // namespace TU
HWY_AFTER_NAMESPACE();
#if HWY_ONCE
namespace TU {
HWY_EXPORT(F0);
HWY_EXPORT(FVoid);
HWY_EXPORT(FMany);
HWY_EXPORT(FRef);
template <typename T> int64_t CallT(uint64_t x, bool& ok) {
  HWY_EXPORT_T(Table1, FT<T>);
  HWY_EXPORT_T(Table2, FT2<T>);
  T y = 0, z = 0;
  const T v = static_cast<T>(x);
  const int64_t r = HWY_DYNAMIC_DISPATCH_T(Table1)(v, &y);
  const int64_t s = HWY_DYNAMIC_DISPATCH_T(Table2)(v, &z);
  ok = ok && y == v && z == static_cast<T>(v + 1) && r == s;
  return r;
}
template <typename T> int64_t CallX(uint64_t x, bool& ok) {
  T y = 0;
  const T v = static_cast<T>(x);
  int64_t r = 0;
  auto f = [&]() -> int64_t { HWY_EXPORT_AND_DYNAMIC_DISPATCH_T(FT<T>)(v, &y); return 0; };
  (void)f;
  HWY_EXPORT_T(T3, Tm<T>::Fn);
  r = (*HWY_DYNAMIC_POINTER_T(T3))(v, &y);
  ok = ok && y == v;
  return r;
}
int64_t Call(int fn, uint64_t x, bool& ok) {
  switch (fn) {
    case 0: return HWY_DYNAMIC_DISPATCH(F0)();
    case 1: {
      int64_t o = 0;
      HWY_DYNAMIC_DISPATCH(FVoid)(&o);
      return o;
    }
    case 2: {
      const uint64_t c = x * 3;
      const auto r = HWY_DYNAMIC_DISPATCH(FMany)(x, 0.5, &ok, c, 200, 2.0f, -1, 5, -70000000000);
      ok = ok && r.a == x + 200 + 4 - 70000000000 && r.b == 2.5 && r.p == &ok && r.big[0] == c && r.big[1] == (uint64_t)(uintptr_t)&c && r.big[2] == ~x;
      return r.target;
    }
    case 3: {
      int64_t o = 0;
      uint64_t q = x;
      uint64_t& w = HWY_DYNAMIC_DISPATCH(FRef)(&o, q);
      ok = ok && &w == &q && q == x;
      return o;
    }
    case 4: return CallT<uint8_t>(x, ok);
    case 5: return CallT<double>(x, ok);
    case 6: return CallX<int32_t>(x, ok);
    case 7: {
      const auto f = HWY_DYNAMIC_POINTER(F0);
      return f();
    }
  }
  return -1;
}
extern const DTu kTu;
const DTu kTu = {HWY_STR(TU), HWY_TARGETS, HWY_STATIC_TARGET, 8, &Call, []() -> int64_t { return HWY_STATIC_DISPATCH(F0)(); }};
}  // namespace TU
#endif
