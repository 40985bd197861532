// stubcxx-flags: 
// C06: a translation unit with its own set of compiled targets.
#ifndef TU_ONCE_few
#define TU_ONCE_few
#define HWY_DISABLED_TARGETS (HWY_AVX3 | HWY_SSSE3 | HWY_AVX3_SPR)
#endif
#define TU dtu_few
#define DTU_FILE "dispatch_few.cc"
#include "dispatch_tu.h"
