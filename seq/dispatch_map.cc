// stubcxx-flags: -std=c++14
// C06: a translation unit with its own set of compiled targets.
#ifndef TU_ONCE_map
#define TU_ONCE_map
#define HWY_DISABLED_TARGETS (HWY_SSE4 | HWY_AVX3_DL)
#endif
#define TU dtu_map
#define DTU_FILE "dispatch_map.cc"
#include "dispatch_tu.h"
