#ifndef DISPATCH_API_H_
#define DISPATCH_API_H_
#include <stdint.h>
struct DRet { int64_t target; uint64_t a; double b; const void* p; uint64_t big[3]; };
struct DTu {
  const char* name;
  int64_t targets, stat;
  int nfn;
  int64_t (*call)(int fn, uint64_t x, bool& ok);
  int64_t (*stat_call)();
};
#endif
