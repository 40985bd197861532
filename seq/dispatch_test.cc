// stubcxx-flags: 
// C06: a translation unit with its own set of compiled targets.
#ifndef TU_ONCE_test
#define TU_ONCE_test
#define HWY_COMPILE_ALL_ATTAINABLE
#endif
#define TU dtu_test
#define DTU_FILE "dispatch_test.cc"
#include "dispatch_tu.h"
