// Driver for exhaustive enumeration harnesses. A harness declares GROUPs; each
// enumerates a finite space completely and reports every disagreement.
#ifndef VERIF_EX_H_
#define VERIF_EX_H_
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include <string>
#include <vector>

namespace ex {
struct Group {
  const char* name;
  void (*fn)();
  Group* next;
};
inline Group*& head() { static Group* h = nullptr; return h; }
inline Group**& tail() { static Group** t = &head(); return t; }
struct Reg {
  Group g;
  Reg(const char* n, void (*f)()) {
    g = {n, f, nullptr};
    *tail() = &g;
    tail() = &g.next;
  }
};
struct St {
  FILE* out = stdout;
  char group[200] = "";
  char cur[600] = "-";
  char smp[300] = "";
  uint64_t evals = 0, distinct = 0;
  int fails = 0;
  bool thorough = false, flag = false;
};
inline St& st() { static St s; return s; }
inline bool thorough() { return st().thorough; }

inline void sanitize(char* s) { for (; *s; s++) if (*s == '\t' || *s == '\n') *s = ' '; }
// Names the case being run (used if it crashes or hangs).
__attribute__((format(printf, 1, 2))) inline void at(const char* f, ...) {
  va_list a;
  va_start(a, f);
  vsnprintf(st().cur, sizeof st().cur, f, a);
  va_end(a);
}
__attribute__((format(printf, 1, 2))) inline void sample(const char* f, ...) {
  if (st().smp[0]) return;
  va_list a;
  va_start(a, f);
  vsnprintf(st().smp, sizeof st().smp, f, a);
  va_end(a);
  sanitize(st().smp);
}
inline void add(uint64_t e, uint64_t d) { st().evals += e; st().distinct += d; }
inline void add(uint64_t e = 1) { st().evals += e; st().distinct += e; }
// Reports a violation in the case named by `kase`.
__attribute__((format(printf, 2, 3))) inline void failc(const char* kase, const char* f, ...) {
  St& s = st();
  s.fails++;
  if (s.fails > 25) return;
  char m[600], c[300];
  va_list a;
  va_start(a, f);
  vsnprintf(m, sizeof m, f, a);
  va_end(a);
  snprintf(c, sizeof c, "%s", kase);
  sanitize(m);
  sanitize(c);
  fprintf(s.out, "F\t%s\t%s\t%s\n", s.group, c, m);
  fflush(s.out);
}
#define EX_FAIL(...) ex::failc(ex::st().cur, __VA_ARGS__)
#define EX_CHECK(c, ...) do { if (!(c)) EX_FAIL(__VA_ARGS__); } while (0)
inline bool many() { return st().fails > 25; }

#ifdef VF_COV
extern "C" int __llvm_profile_write_file(void);
#endif
inline void on_sig(int sg) {
#ifdef VF_COV
  if (sg == SIGALRM) { __llvm_profile_write_file(); _exit(0); }
#endif
  St& s = st();
  char b[1200];
  sanitize(s.cur);
  int n = snprintf(b, sizeof b, "F\t%s\t%s\t%s\n", s.group, s.cur, sg == SIGALRM ? "did not terminate" : sg == SIGSEGV || sg == SIGBUS ? "invalid memory access" : sg == SIGILL ? "illegal instruction" : sg == SIGFPE ? "arithmetic trap" : "aborted");
  fflush(s.out);
  if (write(fileno(s.out), b, n) < 0) {}
  _exit(3);
}
inline void group_begin(const char* name) {
  St& s = st();
  snprintf(s.group, sizeof s.group, "%s", name);
  snprintf(s.cur, sizeof s.cur, "-");
  s.smp[0] = 0;
  s.evals = s.distinct = 0;
  s.fails = 0;
  fprintf(s.out, "B\t%s\n", s.group);
  fflush(s.out);
}
inline void group_end() {
  St& s = st();
  fprintf(s.out, "S\t%s\t%llu\t%llu\t%s\n", s.group, (unsigned long long)s.evals, (unsigned long long)s.distinct, s.smp);
  fflush(s.out);
}
inline const char*& only() { static const char* o = nullptr; return o; }
// Groups created at run time: if (ex::enter("name")) { ...; ex::group_end(); }
inline bool enter(const char* name) {
  if (only() && strcmp(only(), name)) return false;
  group_begin(name);
  return true;
}
inline int main(int argc, char** argv, void (*all)() = nullptr) {
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--out")) {
      const char* p = argv[++i];
      st().out = !strcmp(p, "/dev/stdout") ? stdout : fopen(p, "w");
    } else if (!strcmp(argv[i], "--tier")) {
      st().thorough = !strcmp(argv[++i], "thorough");
    } else if (!strcmp(argv[i], "--only")) {
      only() = argv[++i];
    }
  }
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_sig;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  for (Group* g = head(); g; g = g->next) {
    if (!enter(g->name)) continue;
    g->fn();
    group_end();
  }
  if (all) all();
  fprintf(st().out, "D\n");
  fflush(st().out);
  return 0;
}

// A buffer between two inaccessible pages: end() is the first invalid byte.
struct Guard {
  uint8_t* map;
  size_t total, len;
  explicit Guard(size_t bytes) {
    len = (bytes + 4095) & ~size_t(4095);
    total = len + 2 * 4096;
    map = (uint8_t*)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(map + 4096, len, PROT_READ | PROT_WRITE);
  }
  ~Guard() { munmap(map, total); }
  Guard(const Guard&) = delete;
  uint8_t* begin() { return map + 4096; }
  uint8_t* end() { return map + 4096 + len; }
};
}  // namespace ex
#define GROUP(n) static void n(); static ex::Reg n##_reg(#n, n); static void n()
#endif
