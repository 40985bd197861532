// C19: AES and carry-less multiplication.
#include "simd.h"
namespace {
// ---------------------------------------------------------------- FIPS-197, from its definitions
u8 gmul(u8 a, u8 b) { u8 r = 0; for (int k = 0; k < 8; k++) { if (b & 1) r ^= a; const bool c = a & 0x80; a = (u8)(a << 1); if (c) a ^= 0x1b; b >>= 1; } return r; }
struct Tables {
  u8 s[256], is[256], m[16][256];
  Tables() {
    for (int x = 0; x < 256; x++) {
      u8 inv = 0;
      for (int y = 1; y < 256; y++) if (gmul((u8)x, (u8)y) == 1) inv = (u8)y;
      u8 r = 0;
      for (int i = 0; i < 8; i++) r |= (u8)(((inv >> i ^ inv >> ((i + 4) & 7) ^ inv >> ((i + 5) & 7) ^ inv >> ((i + 6) & 7) ^ inv >> ((i + 7) & 7) ^ 0x63 >> i) & 1) << i);
      s[x] = r;
    }
    for (int x = 0; x < 256; x++) is[s[x]] = (u8)x;
    for (int k = 0; k < 16; k++) for (int x = 0; x < 256; x++) m[k][x] = gmul((u8)k, (u8)x);
  }
};
const Tables& tb() { static const Tables t; return t; }
void mixcol(u8* p, int a, int b, int c, int d) {
  const auto& m = tb().m;
  for (int k = 0; k < 4; k++, p += 4) {
    const u8 x = p[0], y = p[1], z = p[2], w = p[3];
    p[0] = m[a][x] ^ m[b][y] ^ m[c][z] ^ m[d][w];
    p[1] = m[d][x] ^ m[a][y] ^ m[b][z] ^ m[c][w];
    p[2] = m[c][x] ^ m[d][y] ^ m[a][z] ^ m[b][w];
    p[3] = m[b][x] ^ m[c][y] ^ m[d][z] ^ m[a][w];
  }
}
enum { ENC, ENCLAST, DEC, DECLAST, IMC, NOPS };
const char* opn[] = {"AESRound", "AESLastRound", "AESRoundInv", "AESLastRoundInv", "AESInvMixColumns"};
void ref(int op, const u8* st, const u8* key, u8* o) {
  const Tables& t = tb();
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) {
    if (op == IMC) o[c * 4 + r] = st[c * 4 + r];
    else if (op == ENC || op == ENCLAST) o[c * 4 + r] = t.s[st[(c + r) % 4 * 4 + r]];
    else o[c * 4 + r] = t.is[st[(c + 4 - r) % 4 * 4 + r]];
  }
  if (op == ENC) mixcol(o, 2, 3, 1, 1);
  if (op == DEC || op == IMC) mixcol(o, 14, 11, 13, 9);
  if (op != IMC) for (int k = 0; k < 16; k++) o[k] ^= key[k];
}
void keygen(const u8* v, u8 rc, u8* o) {
  static const u8 ix[16] = {4, 5, 6, 7, 5, 6, 7, 4, 12, 13, 14, 15, 13, 14, 15, 12};
  for (int k = 0; k < 16; k++) o[k] = tb().s[v[ix[k]]];
  o[4] ^= rc;
  o[12] ^= rc;
}
// the oracle itself against FIPS-197 appendix B / C.1
void selftest() {
  const Tables& t = tb();
  if (!ex::enter("oracle")) return;
  ex::at("FIPS-197 C.1");
  u8 rk[11][16], st[16], o[16];
  for (int k = 0; k < 16; k++) rk[0][k] = (u8)k, st[k] = (u8)(k * 17);
  u8 rc = 1;
  for (int r = 1; r < 11; r++, rc = gmul(rc, 2)) for (int k = 0; k < 16; k++) {
    const u8* p = rk[r - 1];
    rk[r][k] = k < 4 ? p[k] ^ t.s[p[12 + (k + 1) % 4]] ^ (k == 0 ? rc : 0) : p[k] ^ rk[r][k - 4];
  }
  for (int k = 0; k < 16; k++) st[k] ^= rk[0][k];
  for (int r = 1; r < 11; r++) { ref(r == 10 ? ENCLAST : ENC, st, rk[r], o); memcpy(st, o, 16); }
  static const u8 want[16] = {0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a};
  if (memcmp(st, want, 16)) EX_FAIL("the reference does not encrypt the FIPS-197 example");
  ex::add(1, 1);
  ex::group_end();
}
#if HWY_TARGET != HWY_SCALAR
template <class D> HWY_NOINLINE void kern(int op, D d, const u8* st, const u8* key, u8* o) {
  const auto s = LoadU(d, st), k = LoadU(d, key);
  switch (op) {
    case ENC: StoreU(AESRound(s, k), d, o); break;
    case ENCLAST: StoreU(AESLastRound(s, k), d, o); break;
    case DEC: StoreU(AESRoundInv(s, k), d, o); break;
    case DECLAST: StoreU(AESLastRoundInv(s, k), d, o); break;
    default: StoreU(AESInvMixColumns(s), d, o);
  }
}
u8 back(int bg, size_t i) { return bg == 0 ? 0 : bg == 1 ? (u8)(i * 37 + 11) : bg == 2 ? 0x52 : 0xff; }
void aes() {
  for (int op = 0; op < NOPS; op++) group<u8>(opn[op], [&](auto d) HWY_ATTR {
    using D = decltype(d);
    if constexpr (MaxLanes(D()) >= 16) {
      if (g_gar) return;
      const size_t N = Lanes(d);
      alignas(64) u8 st[64], key[64], o[64], w[64];
      u64 cnt = 0;
      auto go = [&]() HWY_ATTR {
        kern(op, d, st, key, o);
        for (size_t b = 0; b < N; b += 16) ref(op, st + b, key + b, w + b);
        cnt++;
        for (size_t i = 0; i < N; i++) if (o[i] != w[i]) { EX_FAIL("byte %zu is %02x, expected %02x", i, o[i], w[i]); break; }
      };
      for (int bg = 0; bg < 4; bg++) for (int kb = 0; kb < 2; kb++) {
        for (size_t i = 0; i < N; i++) { st[i] = back(bg, i); key[i] = kb ? (u8)(i * 29 + 7) : 0; }
        for (size_t p = 0; p < N; p++) {
          for (int x = 0; x < 256; x++) { ex::at("N=%zu background %d key %d byte %zu = %02x", N, bg, kb, p, x); st[p] = (u8)x; go(); if (ex::many()) return; }
          st[p] = back(bg, p);
          for (int x = 0; x < 8 && op != IMC; x++) { ex::at("N=%zu background %d key %d key bit %d of byte %zu", N, bg, kb, x, p); key[p] ^= (u8)(1 << x); go(); key[p] ^= (u8)(1 << x); }
          if (!kb) for (size_t q = 0; q < p; q++) for (u8 x : {0x01, 0x53, 0x80, 0xff}) for (u8 y : {0x02, 0x63, 0xca, 0x00}) {
            ex::at("N=%zu background %d bytes %zu,%zu = %02x,%02x", N, bg, q, p, y, x);
            st[p] = x, st[q] = y;
            go();
            st[p] = back(bg, p), st[q] = back(bg, q);
          }
          if (ex::many()) return;
        }
      }
      // all 65536 pairs of neighbouring values at once in every byte pair
      for (u32 t = 0; t < 65536; t++) {
        for (size_t i = 0; i < N; i++) st[i] = (u8)((i & 1 ? t >> 8 : t) + (i >> 1) * 41), key[i] = (u8)(t * (i + 1) >> 3);
        ex::at("N=%zu pair %x", N, t);
        go();
        if (ex::many()) return;
      }
      ex::add(cnt, cnt);
    }
  });
}
template <int R, class D> HWY_NOINLINE void kga(D d, const u8* v, u8* o) { StoreU(AESKeyGenAssist<(uint8_t)R>(LoadU(d, v)), d, o); }
template <class D, int... Is> const void* kgtab(std::integer_sequence<int, Is...>) { static void (*const t[])(D, const u8*, u8*) = {&kga<Is, D>...}; return t; }
void kg() {
  group<u8>("AESKeyGenAssist", [&](auto d) HWY_ATTR {
    using D = decltype(d);
    if constexpr (MaxLanes(D()) >= 16) {
      if (g_gar) return;
      const size_t N = Lanes(d);
      const auto* f = (void (*const*)(D, const u8*, u8*))kgtab<D>(std::make_integer_sequence<int, 256>());
      alignas(64) u8 v[64], o[64], w[64];
      u64 cnt = 0;
      for (int R = 0; R < 256; R++) {
        const bool deep = R == 0x1b || R == 0x80 || R == 0 || ex::thorough();
        for (int bg = 0; bg < (deep ? 4 : 1); bg++) {
          for (size_t i = 0; i < N; i++) v[i] = back(bg, i);
          for (size_t p = 0; p < N; p++) {
            for (int x = 0; x < 256; x += deep ? 1 : 51) {
              v[p] = (u8)x;
              ex::at("N=%zu constant %02x background %d byte %zu = %02x", N, R, bg, p, x);
              f[R](d, v, o);
              cnt++;
              for (size_t b = 0; b < N; b += 16) keygen(v + b, (u8)R, w + b);
              for (size_t i = 0; i < N; i++) if (o[i] != w[i]) { EX_FAIL("byte %zu is %02x, expected %02x", i, o[i], w[i]); break; }
              if (ex::many()) return;
            }
            v[p] = back(bg, p);
          }
        }
      }
      ex::add(cnt, cnt);
    }
  });
}
void clm(u64 a, u64 b, u64* o) {
  u64 lo = 0, hi = 0;
  for (int k = 0; k < 64; k++) if (b >> k & 1) { lo ^= a << k; if (k) hi ^= a >> (64 - k); }
  o[0] = lo, o[1] = hi;
}
template <bool UP, class D> HWY_NOINLINE void kclm(D d, const u64* a, const u64* b, u64* o) { StoreU(UP ? CLMulUpper(LoadU(d, a), LoadU(d, b)) : CLMulLower(LoadU(d, a), LoadU(d, b)), d, o); }
template <bool UP> void clmul() {
  group<u64>(UP ? "CLMulUpper" : "CLMulLower", [&](auto d) HWY_ATTR {
    using D = decltype(d);
    if constexpr (MaxLanes(D()) >= 2) {
      if (g_gar) return;
      const size_t N = Lanes(d), B = N / 2;
      alignas(64) u64 a[8], b[8], o[8], w[8];
      u64 cnt = 0;
      auto go = [&]() HWY_ATTR {
        kclm<UP>(d, a, b, o);
        for (size_t k = 0; k < B; k++) clm(a[2 * k + UP], b[2 * k + UP], w + 2 * k);
        cnt++;
        for (size_t i = 0; i < N; i++) if (o[i] != w[i]) { EX_FAIL("a=%016llx b=%016llx: lane %zu is %016llx, expected %016llx", (unsigned long long)a[i / 2 * 2 + UP], (unsigned long long)b[i / 2 * 2 + UP], i, (unsigned long long)o[i], (unsigned long long)w[i]); break; }
        return !ex::many();
      };
      const auto& S = alpha<u64>(ex::thorough() ? 2 : 1);
      // every pair in every block; the unused half holds another value
      auto pairs = [&](const std::vector<u64>& X) HWY_ATTR {
        const u64 n = X.size(), tot = n * n;
        for (u64 t = 0; t < tot; t++) {
          for (size_t k = 0; k < B; k++) {
            const u64 u = (t + k * (n + 1)) % tot;
            a[2 * k + UP] = X[u / n], b[2 * k + UP] = X[u % n];
            a[2 * k + !UP] = ~X[u % n] * 3, b[2 * k + !UP] = ~X[u / n] * 5;
          }
          ex::at("N=%zu pair %llu of %llu", N, (unsigned long long)t, (unsigned long long)n);
          if (!go()) return;
        }
      };
      pairs(S);
      std::vector<u64> bits;
      for (int k = 0; k < 64; k++) bits.push_back(1ull << k), bits.push_back(~0ull << k), bits.push_back(~0ull >> k), bits.push_back(3ull << k);
      pairs(bits);
      for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) if (ex::thorough() || i == j || i + j == 7) for (u32 t = 0; t < 65536; t++) {
        for (size_t k = 0; k < N; k++) a[k] = (u64)(u8)((t >> 8) + k * 77) << 8 * i, b[k] = (u64)(u8)(t + k * 55) << 8 * j;
        ex::at("N=%zu bytes %d,%d value %x", N, i, j, t);
        if (!go()) return;
      }
      ex::add(cnt * B, cnt);
    }
  });
}
#endif
}  // namespace
void all() {
  selftest();
#if HWY_TARGET != HWY_SCALAR
#if PART == 0
  aes();
  clmul<false>();
  clmul<true>();
#else
  kg();
#endif
#endif
}
int main(int argc, char** argv) { return ex::main(argc, argv, all); }
