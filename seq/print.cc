// C35: printed lanes denote their values. PART 0: all values of the narrow types,
// a lattice of the wide ones, all windows of arrays; PART 1: vectors of one target.
#include "simd.h"
#include "hwy/print-inl.h"
#include "hwy/print.h"
namespace {
FILE* mem;
char* mbuf;
size_t msize;
FILE* real_err;
void cap_begin() {
  real_err = stderr;
  mem = open_memstream(&mbuf, &msize);
  stderr = mem;
}
std::string cap_end() {
  stderr = real_err;
  fclose(mem);
  std::string s(mbuf, msize);
  free(mbuf);
  return s;
}
// The integer denoted by `s` (decimal, or hexadecimal with optional grouping); false if none.
bool parse_int(const char* s, UX* v, bool* neg) {
  *v = 0;
  *neg = false;
  const bool hex = s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
  if (hex) s += 2;
  else if (*s == '-') *neg = true, s++;
  int n = 0;
  for (; *s; s++) {
    if (hex && *s == '_') continue;
    int dgt;
    if (*s >= '0' && *s <= '9') dgt = *s - '0';
    else if (hex && *s >= 'a' && *s <= 'f') dgt = *s - 'a' + 10;
    else if (hex && *s >= 'A' && *s <= 'F') dgt = *s - 'A' + 10;
    else return false;
    *v = *v * (hex ? 16 : 10) + dgt;
    n++;
  }
  return n != 0;
}
template <class T> double dbl(T v) {
  if constexpr (std::is_same<T, float16_t>::value) {
    const u16 b = bits(v);
    const int e = b >> 10 & 31, m = b & 1023;
    const double r = e == 31 ? (m ? __builtin_nan("") : __builtin_inf()) : e ? ldexp(1024 + m, e - 25) : ldexp(m, -24);
    return b >> 15 ? -r : r;
  } else if constexpr (std::is_same<T, bfloat16_t>::value) return (double)from<f32>((u32)bits(v) << 16);
  else return (double)v;
}
// Does `s` denote v? Integers exactly, either as a number or as their bits; floats within the printed digits.
template <class T> bool denotes(const char* s, T v) {
  if constexpr (std::is_integral<T>::value) {
    UX p;
    bool neg;
    if (!parse_int(s, &p, &neg)) return false;
    return s[0] == '0' && (s[1] == 'x' || s[1] == 'X') ? p == (UX)bits(v) : (neg ? -(X)p : (X)p) == (X)v;
  } else {
    char* end;
    const double g = strtod(s, &end), w = dbl(v);
    if (*end || end == s) return false;
    if (w != w) return g != g;
    if (std::signbit(g) != std::signbit(w)) return false;
    if (fabs(w) == __builtin_inf()) return g == w;
    const double unit = sizeof(T) == 8 ? 0.5e-18 : sizeof(T) == 4 ? 0.5e-9 : std::is_same<T, float16_t>::value ? 0.5e-4 : 0.5e-3;
    const double tol = fmax(unit * fmax(1.0, fabs(w)) * 1.02, sizeof(T) == 8 ? fabs(w) * 0x1p-52 : 0);
    // small values keep their leading digits
    const double rel = sizeof(T) == 8 ? 1e-9 : sizeof(T) == 4 ? 1e-3 : 0.51;
    return fabs(g - w) <= fmin(tol, w == 0 ? tol : fabs(w) * rel);
  }
}
template <class T> bool one(T v) {
  char buf[164];
  memset(buf, 0x5A, sizeof buf);
  ex::at("%llx", (unsigned long long)bits(v));
  hwy::detail::ToString(hwy::detail::MakeTypeInfo<T>(), &v, buf + 32);
  bool ok = memchr(buf + 32, 0, 100) != nullptr;
  for (int k = 0; k < 32; k++) ok &= buf[k] == 0x5A && buf[132 + k] == 0x5A;
  EX_CHECK(ok, "not terminated within the buffer, or outside it");
  if (ok) EX_CHECK(denotes(buf + 32, v), "printed as %.99s", buf + 32);
  return !ex::many();
}
template <class T> void values() {
  char nm[40];
  snprintf(nm, sizeof nm, "ToString/%s", tname<T>());
  if (!ex::enter(nm)) return;
  uint64_t n = 0;
  if constexpr (sizeof(T) <= 2) {
    for (u32 k = 0; k < (1u << (sizeof(T) * 8)); k++, n++) if (!one(from<T>((Bits<T>)k))) break;
  } else {
    for (T v : alpha<T>(2)) { n++; if (!one(v)) break; }
    const int lb = ex::thorough() ? 22 : 17, W = sizeof(T) * 8;
    for (u64 u = 0; u < (1ull << lb) && !ex::many(); u++) for (int o = -1; o < 2; o++, n++) if (!one(from<T>((Bits<T>)(((Bits<T>)u << (W - lb)) + (Bits<T>)o)))) break;
  }
  ex::add(n);
  ex::group_end();
}
void wide128() {
  if (!ex::enter("ToString/u128")) return;
  const hwy::detail::TypeInfo info = hwy::detail::MakeTypeInfo<hwy::uint128_t>();
  uint64_t n = 0;
  for (u64 hi : alpha<u64>(1)) for (u64 lo : alpha<u64>(1)) {
    hwy::uint128_t v;
    v.lo = lo;
    v.hi = hi;
    char buf[100];
    ex::at("%016llx %016llx", (unsigned long long)hi, (unsigned long long)lo);
    hwy::detail::ToString(info, &v, buf);
    UX p;
    bool neg;
    EX_CHECK(parse_int(buf, &p, &neg) && !neg && p == ((UX)hi << 64 | lo), "printed as %.99s", buf);
    n++;
    if (ex::many()) break;
  }
  ex::add(n);
  ex::group_end();
}
// Compares what was printed for a window of `a` with the type, caption and lanes in it.
template <class T> void check_out(const std::string& s, const T* a, size_t N, const char* caption, size_t lane, size_t maxl) {
  char tn[40];
  const int W = sizeof(T) * 8;
  const char* p = std::is_integral<T>::value ? std::is_signed<T>::value ? "i" : "u" : std::is_same<T, bfloat16_t>::value ? "bf" : "f";
  if (N == 1) snprintf(tn, sizeof tn, "%s%d ", p, W);
  else snprintf(tn, sizeof tn, "%s%dx%zu ", p, W, N);
  const size_t b = lane < 2 ? 0 : lane - 2, e = b + maxl < N ? b + maxl : N;
  const size_t nl = s.find('\n');
  bool ok = s.compare(0, strlen(tn), tn) == 0 && nl != std::string::npos && !s.empty() && s.back() == '\n';
  ok = ok && s.find(caption) < nl;
  const size_t br = s.find('[');
  ok = ok && br < nl && (size_t)strtoul(s.c_str() + br + 1, nullptr, 10) == b;
  EX_CHECK(ok, "header of: %s", s.c_str());
  if (!ok) return;
  std::vector<std::string> tok;
  std::string cur;
  for (size_t k = nl + 1; k < s.size(); k++) {
    if (s[k] == ',') { tok.push_back(cur); cur.clear(); }
    else if (s[k] != ' ' && s[k] != '\n') cur += s[k];
  }
  const size_t want = b < e ? e - b : 0;
  EX_CHECK(tok.size() == want && (want == 0 || cur.empty()), "%zu lanes instead of %zu: %s", tok.size(), want, s.c_str());
  for (size_t k = 0; k < want && k < tok.size(); k++)
    if (!denotes(tok[k].c_str(), a[b + k])) { EX_FAIL("lane %zu printed as %s in: %s", b + k, tok[k].c_str(), s.c_str()); break; }
}
template <class T> T lane_value(size_t i) {
  if constexpr (std::is_integral<T>::value) return (T)(i * 37 + 101 - (i % 3 == 1 ? 200 : 0));
  else if constexpr (sizeof(T) == 2) return hwy::ConvertScalarTo<T>((f32)i * 2.5f - 7.25f);
  else return (T)((T)i * (T)2.5 - (T)7.25);
}
template <class T> void windows() {
  char nm[40];
  snprintf(nm, sizeof nm, "PrintArray/%s", tname<T>());
  if (!ex::enter(nm)) return;
  T a[400];
  uint64_t n = 0;
  for (size_t i = 0; i < 400; i++) a[i] = lane_value<T>(i);
  for (size_t N : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 64})
    for (size_t lane = 0; lane <= N + 4; lane++) for (size_t maxl = 0; maxl <= N + 2; maxl++) {
      ex::at("N=%zu lane=%zu max=%zu", N, lane, maxl);
      cap_begin();
      hwy::detail::PrintArray(hwy::detail::MakeTypeInfo<T>(), "cap", a, N, lane, maxl);
      check_out(cap_end(), a, N, "cap", lane, maxl);
      n++;
      if (ex::many()) return;
    }
  for (size_t N : {129, 257, 300})
    for (size_t lane = 0; lane <= N + 4; lane += 1 + lane / 5) for (size_t maxl : {(size_t)1, (size_t)7, (size_t)120, N}) {
      ex::at("N=%zu lane=%zu max=%zu", N, lane, maxl);
      cap_begin();
      hwy::detail::PrintArray(hwy::detail::MakeTypeInfo<T>(), "cap", a, N, lane, maxl);
      check_out(cap_end(), a, N, "cap", lane, maxl);
      n++;
      if (ex::many()) return;
    }
  for (size_t N = 0; N < 70; N++) {
    ex::at("PrintArray N=%zu", N);
    cap_begin();
    hwy::PrintArray(a, N);
    check_out(cap_end(), a, N, "", 0, N);
    n++;
  }
  for (size_t i = 0; i < 80; i++) {
    ex::at("PrintValue %zu", i);
    cap_begin();
    hwy::PrintValue(a[i]);
    std::string s = cap_end();
    while (!s.empty() && (s.back() == ',' || s.back() == ' ' || s.back() == '\n')) s.pop_back();
    EX_CHECK(denotes(s.c_str(), a[i]), "printed as %s", s.c_str());
    n++;
  }
  ex::add(n);
  ex::group_end();
}
template <class T> void vectors() {
  group<T>("Print", [](auto d) HWY_ATTR {
    const size_t N = Lanes(d);
    alignas(64) T a[64];
    for (size_t r = 0; r < 3; r++) {
      for (size_t i = 0; i < N; i++) a[i] = lane_value<T>(i + r * 7);
      for (size_t lane = 0; lane <= N + 2; lane++) for (size_t maxl : {(size_t)0, (size_t)1, (size_t)2, (size_t)7, N, N + 1}) {
        ex::at("N=%zu lane=%zu max=%zu", N, lane, maxl);
        const auto v = ldg(d, a, g_gar);
        cap_begin();
        Print(d, "v", v, lane, maxl);
        check_out(cap_end(), a, N, "v", lane, maxl);
        ex::add();
      }
      ex::at("N=%zu", N);
      const auto v = ldg(d, a, g_gar);
      cap_begin();
      Print(d, "v", v);
      check_out(cap_end(), a, N, "v", 0, 7);
      if (ex::many()) return;
    }
  });
}
template <class... Ts> void vecs() { (void)std::initializer_list<int>{(vectors<Ts>(), 0)...}; }
}  // namespace
void all() {
#if PART == 0
  values<u8>(); values<i8>(); values<u16>(); values<i16>(); values<u32>(); values<i32>(); values<u64>(); values<i64>();
  values<float16_t>(); values<bfloat16_t>(); values<f32>(); values<f64>();
  wide128();
  windows<u8>(); windows<i8>(); windows<u16>(); windows<i32>(); windows<u64>(); windows<float16_t>(); windows<bfloat16_t>(); windows<f32>(); windows<f64>();
#else
  vecs<ALL_, float16_t, bfloat16_t>();
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
