// A minimal C library for harnesses compiled to WebAssembly: memory, strings,
// printing, exact fma/ldexp and the few parts of libstdc++ that are not headers.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>

typedef unsigned long ul;
extern "C" {
int js_write(int fd, const void* p, int n);
int js_open(const char* p, const char* m);
void js_exit(int c) __attribute__((noreturn));
int js_double(double v, int prec, int conv, char* out);
extern unsigned char __heap_base;

// ---- memory
#define BUILTIN __attribute__((no_builtin))
BUILTIN void* memcpy(void* d, const void* s, ul n) {
  char* a = (char*)d;
  const char* b = (const char*)s;
  for (ul i = 0; i < n; i++) a[i] = b[i];
  return d;
}
BUILTIN void* memmove(void* d, const void* s, ul n) {
  char* a = (char*)d;
  const char* b = (const char*)s;
  if (a < b) for (ul i = 0; i < n; i++) a[i] = b[i];
  else for (ul i = n; i--;) a[i] = b[i];
  return d;
}
BUILTIN void* memset(void* d, int c, ul n) {
  char* a = (char*)d;
  for (ul i = 0; i < n; i++) a[i] = (char)c;
  return d;
}
BUILTIN int memcmp(const void* s, const void* t, ul n) {
  const unsigned char *a = (const unsigned char*)s, *b = (const unsigned char*)t;
  for (ul i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
BUILTIN void* memchr(const void* s, int c, ul n) {
  for (ul i = 0; i < n; i++) if (((const unsigned char*)s)[i] == (unsigned char)c) return (char*)s + i;
  return nullptr;
}
BUILTIN ul strlen(const char* s) { ul n = 0; while (s[n]) n++; return n; }
BUILTIN int strcmp(const char* a, const char* b) {
  for (; *a && *a == *b; a++, b++) {}
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
BUILTIN int strncmp(const char* a, const char* b, ul n) {
  for (; n && *a && *a == *b; a++, b++, n--) {}
  return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0;
}
BUILTIN char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
BUILTIN char* strstr(const char* a, const char* b) {
  const ul n = strlen(b);
  for (; *a; a++) if (!strncmp(a, b, n)) return (char*)a;
  return n ? nullptr : (char*)a;
}
// Blocks of 2^k bytes, header of 16 bytes holding k.
static ul g_top = 0;
static void* g_free[32];
static void* get(ul align, ul n) {
  ul t = g_top ? g_top : (ul)&__heap_base;
  t = (t + align - 1) & ~(align - 1);
  const ul end = t + n;
  const ul have = __builtin_wasm_memory_size(0) * 65536ul;
  if (end < t) return nullptr;
  if (end > have && __builtin_wasm_memory_grow(0, (end - have + (16ul << 20)) / 65536 + 1) == (ul)-1) return nullptr;
  g_top = end;
  return (void*)t;
}
void* malloc(ul n) {
  int k = 5;
  while ((1ul << k) < n + 16) if (++k > 30) return nullptr;
  void* p = g_free[k];
  if (p) g_free[k] = *(void**)((char*)p + 16);
  else if (!(p = get(64, 1ul << k))) return nullptr;
  *(int*)p = k;
  return (char*)p + 16;
}
void free(void* q) {
  if (!q) return;
  void* p = (char*)q - 16;
  const int k = *(int*)p;
  *(void**)q = g_free[k];
  g_free[k] = p;
}
void* calloc(ul a, ul b) { void* p = malloc(a * b); return p ? memset(p, 0, a * b) : p; }
void* realloc(void* q, ul n) {
  void* p = malloc(n);
  if (q && p) {
    const ul have = (1ul << *(int*)((char*)q - 16)) - 16;
    memcpy(p, q, have < n ? have : n);
    free(q);
  }
  return p;
}
void* aligned_alloc(ul a, ul n) { return get(a, n); }
int posix_memalign(void** p, ul a, ul n) { return (*p = get(a, n)) ? 0 : 12; }
void* mmap(void*, ul n, int, int, int, long) { void* p = get(4096, n); return p ? memset(p, 0, n) : (void*)-1; }
int munmap(void*, ul) { return 0; }
int mprotect(void*, ul, int) { return 0; }
char* getenv(const char*) { return nullptr; }

// ---- printing
struct VF { int fd; char b[4096]; int n; };
static VF g_out{1, "", 0}, g_err{2, "", 0};
VF *stdout = &g_out, *stderr = &g_err;
int fflush(VF* f) { if (f && f->n) { js_write(f->fd, f->b, f->n); f->n = 0; } return 0; }
ul fwrite(const void* p, ul a, ul b, VF* f) {
  const char* c = (const char*)p;
  for (ul i = 0; i < a * b; i++) { if (f->n == sizeof f->b) fflush(f); f->b[f->n++] = c[i]; }
  if (f->fd == 2) fflush(f);
  return b;
}
int fputs(const char* s, VF* f) { fwrite(s, 1, strlen(s), f); return 0; }
int fputc(int c, VF* f) { char x = (char)c; fwrite(&x, 1, 1, f); return c; }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char* s) { fputs(s, stdout); return fputc('\n', stdout); }
VF* fopen(const char* p, const char* m) {
  const int fd = js_open(p, m);
  if (fd < 0) return nullptr;
  VF* f = (VF*)malloc(sizeof(VF));
  f->fd = fd;
  f->n = 0;
  return f;
}
int fclose(VF* f) { return fflush(f); }
int fileno(VF* f) { return f->fd; }
long write(int fd, const void* p, ul n) { return js_write(fd, p, (int)n); }
int vsnprintf(char* o, ul cap, const char* f, va_list a) {
  ul n = 0;
  auto put = [&](char c) { if (n + 1 < cap) o[n] = c; n++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++;
    bool left = false, zero = false, plus = false, alt = false;
    for (;; f++) {
      if (*f == '-') left = true;
      else if (*f == '0') zero = true;
      else if (*f == '+') plus = true;
      else if (*f == '#') alt = true;
      else if (*f != ' ') break;
    }
    int w = 0, prec = -1, l = 0;
    if (*f == '*') { w = va_arg(a, int); f++; }
    else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    if (*f == '.') {
      f++;
      prec = 0;
      if (*f == '*') { prec = va_arg(a, int); f++; }
      else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0';
    }
    for (;; f++) {
      if (*f == 'l') l++;
      else if (*f == 'j') l = 2;
      else if (*f == 'L') l = 3;
      else if (*f != 'z' && *f != 't' && *f != 'h') break;
    }
    char t[400];
    const char* s = t;
    int len = 0;
    const char c = *f;
    if (c == 's') {
      s = va_arg(a, const char*);
      if (!s) s = "(null)";
      while ((prec < 0 || len < prec) && s[len]) len++;
      zero = false;
    } else if (c == 'c') {
      t[0] = (char)va_arg(a, int);
      len = 1;
    } else if (c == '%') {
      t[0] = '%';
      len = 1;
    } else if (c == 'p' || c == 'x' || c == 'X' || c == 'u' || c == 'd' || c == 'i' || c == 'o') {
      unsigned long long v;
      bool neg = false;
      if (c == 'd' || c == 'i') {
        const long long sv = l == 2 ? va_arg(a, long long) : va_arg(a, int);
        neg = sv < 0;
        v = neg ? 0ull - (unsigned long long)sv : (unsigned long long)sv;
      } else {
        v = l == 2 ? va_arg(a, unsigned long long) : va_arg(a, unsigned);
      }
      const unsigned base = c == 'o' ? 8 : c == 'u' || c == 'd' || c == 'i' ? 10 : 16;
      char r[80];
      int m = 0;
      while (v) { r[m++] = (c == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; }
      while (m < (prec < 0 ? 1 : prec) && m < 70) r[m++] = '0';
      if (zero && !left && prec < 0) while (m + (neg || plus) < w && m < 70) r[m++] = '0';
      if (c == 'p' || (alt && base == 16)) { r[m++] = 'x'; r[m++] = '0'; }
      if (neg) r[m++] = '-';
      else if (plus && (c == 'd' || c == 'i')) r[m++] = '+';
      for (int i = 0; i < m; i++) t[i] = r[m - 1 - i];
      len = m;
    } else if (c == 'a' || c == 'e' || c == 'f' || c == 'g' || c == 'A' || c == 'E' || c == 'F' || c == 'G') {
      double v;
      if (l == 3) v = 0, (void)(va_arg(a, long long)), (void)(va_arg(a, long long));
      else v = va_arg(a, double);
      len = js_double(v, prec, c, t);
    }
    if (!left) for (int i = len; i < w; i++) put(' ');
    for (int i = 0; i < len; i++) put(s[i]);
    if (left) for (int i = len; i < w; i++) put(' ');
  }
  if (cap) o[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char* o, ul cap, const char* f, ...) { va_list a; va_start(a, f); const int r = vsnprintf(o, cap, f, a); va_end(a); return r; }
int vfprintf(VF* o, const char* f, va_list a) { static char b[8192]; vsnprintf(b, sizeof b, f, a); fputs(b, o); return 0; }
int fprintf(VF* o, const char* f, ...) { va_list a; va_start(a, f); const int r = vfprintf(o, f, a); va_end(a); return r; }
int printf(const char* f, ...) { va_list a; va_start(a, f); const int r = vfprintf(stdout, f, a); va_end(a); return r; }

// ---- process
static void (*g_handler)(int);
int sigaction(int, const void* sa, void*) { if (sa) g_handler = *(void (*const*)(int))sa; return 0; }
int sigaltstack(const void*, void*) { return 0; }
unsigned alarm(unsigned) { return 0; }
long clock() { static long c; return c += 1234567; }
long time(long* t) { if (t) *t = 1700000000; return 1700000000; }
void vf_trap(int sig) { if (g_handler) g_handler(sig); }
void _exit(int c) { js_exit(c); }
void exit(int c) { fflush(stdout); js_exit(c); }
void abort() { vf_trap(6); js_exit(3); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
void* __dso_handle = nullptr;
void __cxa_pure_virtual() { abort(); }
int __cxa_guard_acquire(char* g) { return !*g; }
void __cxa_guard_release(char* g) { *g = 1; }
int* __errno_location() { static int e; return &e; }
int __main_argc_argv(int, char**);
char* vf_buf(int n) { return (char*)malloc(n); }
int vf_start(char* p) {
  static char* argv[64];
  int n = 0;
  for (; *p && n < 63; p += strlen(p) + 1) argv[n++] = p;
  const int r = __main_argc_argv(n, argv);
  fflush(stdout);
  return r;
}

// ---- 128-bit integers
typedef unsigned __int128 ux;
union U { ux v; struct { uint64_t lo, hi; } s; };
__int128 __multi3(__int128 a, __int128 b) {
  U x, y, r;
  x.v = (ux)a;
  y.v = (ux)b;
  const uint64_t M = 0xFFFFFFFFu, al = x.s.lo & M, ah = x.s.lo >> 32, bl = y.s.lo & M, bh = y.s.lo >> 32;
  const uint64_t p0 = al * bl, p1 = al * bh, p2 = ah * bl, p3 = ah * bh;
  const uint64_t mid = (p0 >> 32) + (p1 & M) + (p2 & M);
  r.s.lo = (p0 & M) | mid << 32;
  r.s.hi = p3 + (p1 >> 32) + (p2 >> 32) + (mid >> 32) + x.s.lo * y.s.hi + x.s.hi * y.s.lo;
  return (__int128)r.v;
}
__int128 __ashlti3(__int128 a, int n) {
  U x, r;
  x.v = (ux)a;
  if (n & 64) r.s.lo = 0, r.s.hi = x.s.lo << (n & 63);
  else if (n) r.s.lo = x.s.lo << n, r.s.hi = x.s.hi << n | x.s.lo >> (64 - n);
  else return a;
  return (__int128)r.v;
}
__int128 __lshrti3(__int128 a, int n) {
  U x, r;
  x.v = (ux)a;
  if (n & 64) r.s.hi = 0, r.s.lo = x.s.hi >> (n & 63);
  else if (n) r.s.hi = x.s.hi >> n, r.s.lo = x.s.lo >> n | x.s.hi << (64 - n);
  else return a;
  return (__int128)r.v;
}
__int128 __ashrti3(__int128 a, int n) {
  U x, r;
  x.v = (ux)a;
  const int64_t h = (int64_t)x.s.hi;
  if (n & 64) r.s.hi = (uint64_t)(h >> 63), r.s.lo = (uint64_t)(h >> (n & 63));
  else if (n) r.s.hi = (uint64_t)(h >> n), r.s.lo = x.s.lo >> n | x.s.hi << (64 - n);
  else return a;
  return (__int128)r.v;
}
static ux divmod(ux a, ux b, ux* rem) {
  ux q = 0, r = 0;
  for (int i = 127; i >= 0; i--) {
    const bool top = (uint64_t)(r >> 127) != 0;
    r = r << 1 | (ux)((uint64_t)(a >> i) & 1);
    if (top || r >= b) { r -= b; q |= (ux)1 << i; }
  }
  *rem = r;
  return q;
}
ux __udivti3(ux a, ux b) { ux r; return divmod(a, b, &r); }
ux __umodti3(ux a, ux b) { ux r; divmod(a, b, &r); return r; }
__int128 __divti3(__int128 a, __int128 b) {
  ux r;
  const ux q = divmod(a < 0 ? (ux)0 - (ux)a : (ux)a, b < 0 ? (ux)0 - (ux)b : (ux)b, &r);
  return (__int128)((a < 0) != (b < 0) ? (ux)0 - q : q);
}
__int128 __modti3(__int128 a, __int128 b) {
  ux r;
  divmod(a < 0 ? (ux)0 - (ux)a : (ux)a, b < 0 ? (ux)0 - (ux)b : (ux)b, &r);
  return (__int128)(a < 0 ? (ux)0 - r : r);
}

// ---- mathematics
static uint64_t b64(double x) { uint64_t u; __builtin_memcpy(&u, &x, 8); return u; }
static double f64(uint64_t u) { double x; __builtin_memcpy(&x, &u, 8); return x; }
double scalbn(double x, int n) {
  // scale in steps that are exact except for the last one
  if (n > 1023) { x *= 0x1p1023; n -= 1023; if (n > 1023) { x *= 0x1p1023; n -= 1023; if (n > 1023) n = 1023; } }
  else if (n < -1022) { x *= 0x1p-969; n += 969; if (n < -1022) { x *= 0x1p-969; n += 969; if (n < -1022) n = -1022; } }
  return x * f64((uint64_t)(0x3FF + n) << 52);
}
double ldexp(double x, int n) { return scalbn(x, n); }
float ldexpf(float x, int n) { return (float)scalbn(x, n); }
int ilogb(double x) {
  uint64_t u = b64(x) & ~(1ull << 63);
  if (!u) return (int)0x80000000;
  if (u >> 52 == 0x7FF) return u << 12 ? (int)0x80000000 : 0x7FFFFFFF;
  if (u >> 52) return (int)(u >> 52) - 1023;
  return -1011 - __builtin_clzll(u);
}
struct Num { uint64_t m; int e, sign; };
static Num normalize(double x) {
  uint64_t ix = b64(x);
  int e = (int)(ix >> 52);
  const int sign = e & 0x800;
  e &= 0x7ff;
  if (!e) {
    ix = b64(x * 0x1p63);
    e = (int)(ix >> 52 & 0x7ff);
    e = e ? e - 63 : 0x800;
  }
  ix &= (1ull << 52) - 1;
  ix |= 1ull << 52;
  ix <<= 1;
  return Num{ix, e - (0x3ff + 52 + 1), sign};
}
// Rounds (-1)^sign * (m, with a sticky lowest bit) * 2^e to nearest even.
static double assemble(uint64_t m, int e, bool sign) {
  // m has its highest bit at 62; value in [2^(e+62), 2^(e+63))
  int drop = 62 - 52;
  if (e + 62 < -1022) drop += -1022 - (e + 62);
  uint64_t q;
  if (drop > 63) q = 0;  // below half of the smallest subnormal
  else {
    q = m >> drop;
    const uint64_t rest = m << (64 - drop), half = 1ull << 63;
    if (rest > half || (rest == half && (q & 1))) q++;
  }
  double r = scalbn((double)q, 0);
  // exact scaling: q has at most 53 bits and is already rounded to the grid
  const int k = e + drop;
  if (k > 960) r = r * f64((uint64_t)(0x3FF + 960) << 52) * f64((uint64_t)(0x3FF + (k - 960 > 1000 ? 1000 : k - 960)) << 52);
  else if (k < -1022) r = r * f64((uint64_t)(0x3FF - 1000) << 52) * f64((uint64_t)(0x3FF + (k + 1000)) << 52);
  else r = r * f64((uint64_t)(0x3FF + k) << 52);
  return sign ? -r : r;
}
double fma(double x, double y, double z) {
  const Num nx = normalize(x), ny = normalize(y), nz = normalize(z);
  const int Z = 0x7ff - 0x3ff - 52 - 1;
  if (nx.e >= Z || ny.e >= Z) return x * y + z;
  if (nz.e >= Z) return nz.e > Z ? x * y : z;
  U r, a;
  r.v = (ux)nx.m * ny.m;
  uint64_t rhi = r.s.hi, rlo = r.s.lo, zhi, zlo;
  int e = nx.e + ny.e, d = nz.e - e;
  if (d > 0) {
    if (d < 64) {
      zlo = nz.m << d;
      zhi = nz.m >> (64 - d);
    } else {
      zlo = 0;
      zhi = nz.m;
      e = nz.e - 64;
      d -= 64;
      if (d == 0) {
      } else if (d < 64) {
        rlo = rhi << (64 - d) | rlo >> d | (rlo << (64 - d) ? 1 : 0);
        rhi = rhi >> d;
      } else {
        rlo = 1;
        rhi = 0;
      }
    }
  } else {
    zhi = 0;
    d = -d;
    if (d == 0) zlo = nz.m;
    else if (d < 64) zlo = nz.m >> d | (nz.m << (64 - d) ? 1 : 0);
    else zlo = 1;
  }
  bool sign = nx.sign != ny.sign;
  r.s.hi = rhi;
  r.s.lo = rlo;
  a.s.hi = zhi;
  a.s.lo = zlo;
  if (sign == (nz.sign != 0)) r.v += a.v;
  else {
    r.v -= a.v;
    if (r.s.hi >> 63) { r.v = (ux)0 - r.v; sign = !sign; }
  }
  rhi = r.s.hi;
  rlo = r.s.lo;
  if (rhi) {
    e += 64;
    d = __builtin_clzll(rhi) - 1;
    if (d) rhi = rhi << d | rlo >> (64 - d) | (rlo << d ? 1 : 0);
    else rhi |= rlo ? 1 : 0;
  } else if (rlo) {
    d = __builtin_clzll(rlo) - 1;
    rhi = d < 0 ? rlo >> 1 | (rlo & 1) : rlo << d;
  } else {
    return x * y + z;
  }
  return assemble(rhi, e - d, sign);
}
float fmaf(float x, float y, float z) {
  const double p = (double)x * y, c = z, s = p + c, t = s - p, err = (p - (s - t)) + (c - t);
  // round to odd
  uint64_t u = b64(s);
  if (err != 0 && err == err && (u >> 52 & 0x7FF) != 0x7FF && !(u & 1)) u += (err > 0) == (s > 0) ? 1 : -1;
  return (float)f64(u);
}

// ---- exceptions libstdc++ headers would throw
void _ZSt20__throw_length_errorPKc(const char*) { abort(); }
void _ZSt19__throw_logic_errorPKc(const char*) { abort(); }
void _ZSt20__throw_out_of_rangePKc(const char*) { abort(); }
void _ZSt24__throw_out_of_range_fmtPKcz(const char*, ...) { abort(); }
void _ZSt17__throw_bad_allocv() { abort(); }
void _ZSt28__throw_bad_array_new_lengthv() { abort(); }
}  // extern "C"
void* operator new(ul n) { void* p = malloc(n); if (!p) abort(); return p; }
void* operator new[](ul n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, ul) noexcept { free(p); }
void operator delete[](void* p, ul) noexcept { free(p); }
namespace std { enum class align_val_t : ul {}; }
void* operator new(ul n, std::align_val_t a) { void* p = aligned_alloc((ul)a, n); if (!p) abort(); return p; }
void* operator new[](ul n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void*, std::align_val_t) noexcept {}
void operator delete[](void*, std::align_val_t) noexcept {}
void operator delete(void*, ul, std::align_val_t) noexcept {}
void operator delete[](void*, ul, std::align_val_t) noexcept {}

// ---- std::map's tree, without balancing
namespace std {
struct _Rb_tree_node_base {
  int color;
  _Rb_tree_node_base *parent, *left, *right;
};
typedef _Rb_tree_node_base B;
static B* next(B* x) {
  if (x->right) {
    x = x->right;
    while (x->left) x = x->left;
    return x;
  }
  B* y = x->parent;
  while (x == y->right) { x = y; y = y->parent; }
  return x->right != y ? y : x;
}
static B* prev(B* x) {
  if (x->color == 0 && x->parent && x->parent->parent == x) return x->right;  // end(): the header is red
  if (x->left) {
    B* y = x->left;
    while (y->right) y = y->right;
    return y;
  }
  B* y = x->parent;
  while (x == y->left) { x = y; y = y->parent; }
  return y;
}
B* _Rb_tree_increment(B* x) { return next(x); }
const B* _Rb_tree_increment(const B* x) { return next(const_cast<B*>(x)); }
B* _Rb_tree_decrement(B* x) { return prev(x); }
const B* _Rb_tree_decrement(const B* x) { return prev(const_cast<B*>(x)); }
void _Rb_tree_insert_and_rebalance(bool left, B* x, B* p, B& h) noexcept {
  x->parent = p;
  x->left = x->right = nullptr;
  x->color = 1;  // black, as only the header is red
  if (left) {
    p->left = x;  // also the leftmost if p is the header
    if (p == &h) { h.parent = x; h.right = x; }
    else if (p == h.left) h.left = x;
  } else {
    p->right = x;
    if (p == h.right) h.right = x;
  }
}
B* _Rb_tree_rebalance_for_erase(B* z, B& h) noexcept {
  B* r;
  if (!z->left) r = z->right;
  else if (!z->right) r = z->left;
  else {
    // successor y takes z's place
    B* y = z->right;
    while (y->left) y = y->left;
    if (y != z->right) {
      y->parent->left = y->right;
      if (y->right) y->right->parent = y->parent;
      y->right = z->right;
      y->right->parent = y;
    }
    y->left = z->left;
    y->left->parent = y;
    r = y;
  }
  if (r) r->parent = z->parent;
  if (h.parent == z) h.parent = r;
  else if (z->parent->left == z) z->parent->left = r;
  else z->parent->right = r;
  B* root = h.parent;
  if (!root) { h.left = h.right = &h; return z; }
  B* m = root;
  while (m->left) m = m->left;
  h.left = m;
  m = root;
  while (m->right) m = m->right;
  h.right = m;
  return z;
}
}  // namespace std
