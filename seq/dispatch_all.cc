// stubcxx-flags: 
// C06: a translation unit with its own set of compiled targets.
#ifndef TU_ONCE_all
#define TU_ONCE_all

#endif
#define TU dtu_all
#define DTU_FILE "dispatch_all.cc"
#include "dispatch_tu.h"
