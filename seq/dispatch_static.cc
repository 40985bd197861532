// stubcxx-flags: 
// C06: a translation unit with its own set of compiled targets.
#ifndef TU_ONCE_static
#define TU_ONCE_static
#define HWY_COMPILE_ONLY_STATIC
#endif
#define TU dtu_static
#define DTU_FILE "dispatch_static.cc"
#include "dispatch_tu.h"
