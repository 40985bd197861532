// stubcxx-flags: -mavx2 -mbmi -mbmi2 -mfma -mf16c -maes -mpclmul -mlzcnt
// C06: a translation unit with its own set of compiled targets.
#ifndef TU_ONCE_base
#define TU_ONCE_base

#endif
#define TU dtu_base
#define DTU_FILE "dispatch_base.cc"
#include "dispatch_tu.h"
