// stubcxx-flags: 
// C06: a translation unit with its own set of compiled targets.
#ifndef TU_ONCE_scalar
#define TU_ONCE_scalar
#define HWY_COMPILE_ONLY_SCALAR
#endif
#define TU dtu_scalar
#define DTU_FILE "dispatch_scalar.cc"
#include "dispatch_tu.h"
