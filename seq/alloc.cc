// C09: aligned allocation for every base address modulo the aliasing distance,
// every cyclic offset, boundary sizes, allocation failures and overflows.
#include <map>
#include "ex.h"
#include "hwy/aligned_allocator.h"

namespace {
// Arena whose last byte touches an inaccessible page: allocations are placed so
// that their end is exactly the end of the arena (right) or start at its begin.
struct Env {
  ex::Guard* g;
  size_t misalign = 0;      // requested base address modulo kMod
  bool right = false;       // place as far right as possible for this misalignment
  bool fail = false;
  int nalloc = 0, nfree = 0;
  uint8_t* last = nullptr;
  size_t last_size = 0;
  void* opaque_seen = nullptr;
  uint8_t* freed = nullptr;
};
const size_t kMod = 2048;
void* alloc_fn(void* o, size_t n) {
  Env* e = static_cast<Env*>(o);
  e->nalloc++;
  e->last_size = n;
  if (e->fail) return e->last = nullptr;
  uint8_t* p;
  if (e->right) {
    // the exact size fits; end at most kMod-1 before the guard
    uintptr_t q = (uintptr_t)e->g->end() - n;
    q -= (q - e->misalign) % kMod;
    p = (uint8_t*)q;
    if (p < e->g->begin()) { EX_FAIL("requested %zu bytes", n); return nullptr; }
  } else {
    uintptr_t q = (uintptr_t)e->g->begin();
    q += (e->misalign - q) % kMod;
    p = (uint8_t*)q;
  }
  return e->last = p;
}
void free_fn(void* o, void* p) {
  Env* e = static_cast<Env*>(o);
  e->nfree++;
  e->freed = (uint8_t*)p;
}
const size_t kAlign = HWY_MAX(HWY_ALIGNMENT, 64);
void check_ptr(const Env& e, void* p, size_t bytes) {
  uint8_t* u = (uint8_t*)p;
  EX_CHECK((uintptr_t)p % HWY_ALIGNMENT == 0, "not aligned: %p", p);
  EX_CHECK(u >= e.last && u + bytes <= e.last + e.last_size, "payload [%ld, %ld) outside the %zu allocated bytes", (long)(u - e.last), (long)(u - e.last + bytes), e.last_size);
}
}  // namespace

GROUP(every_base_and_offset) {
  Env e;
  ex::Guard g(1 << 16);
  e.g = &g;
  const size_t sizes[] = {1, 2, 15, 16, 17, 127, 128, 129, 1000, 1023, 1024, 1025, 4096, 8191};
  for (int phase = 0; phase < 16; phase++)
    for (size_t m = 0; m < kMod; m++)
      for (size_t si = 0; si < sizeof(sizes) / sizeof(*sizes); si++) {
        if (!ex::thorough() && m % 16 && m % 1024 > 40 && m % 1024 < 984 && (m + si + phase) % 5) continue;
        const size_t n = sizes[si];
        ex::at("base%%2048=%zu size=%zu call %d", m, n, phase);
        e.misalign = m;
        e.right = (phase + si) & 1;
        e.nalloc = e.nfree = 0;
        uint8_t* p = (uint8_t*)hwy::AllocateAlignedBytes(n, alloc_fn, &e);
        EX_CHECK(p && e.nalloc == 1, "returned %p after %d calls", p, e.nalloc);
        if (!p) continue;
        check_ptr(e, p, n);
        // Everything the caller may write, then release: bookkeeping intact?
        memset(p, 0xEE, n);
        hwy::FreeAlignedBytes(p, free_fn, &e);
        EX_CHECK(e.nfree == 1 && e.freed == e.last, "freed %p instead of %p", e.freed, e.last);
        ex::add();
        if (ex::many()) return;
      }
  ex::sample("%d cyclic offsets x 2048 base addresses x %zu sizes", 16, sizeof(sizes) / sizeof(*sizes));
}
GROUP(failure_is_null) {
  Env e;
  ex::Guard g(4096);
  e.g = &g;
  e.fail = true;
  for (int phase = 0; phase < 16; phase++)
    for (size_t n : {size_t(1), size_t(1000), size_t(-1) / 2 - 1, size_t(-1) / 2, size_t(-1) / 2 + 1, size_t(-1) - 2000, size_t(-1) - 1, size_t(-1)}) {
      ex::at("size %zu, failing allocator", n);
      e.nfree = 0;
      void* p = hwy::AllocateAlignedBytes(n, alloc_fn, &e);
      EX_CHECK(!p, "returned %p although allocation failed", p);
      hwy::FreeAlignedBytes(nullptr, free_fn, &e);
      EX_CHECK(e.nfree == 0, "freed null");
      {
        auto a = hwy::AllocateAligned<uint8_t>(n, alloc_fn, free_fn, &e);
        EX_CHECK(!a.get(), "non-null");
        auto b = hwy::MakeUniqueAlignedArrayWithAlloc<uint16_t>(n / 2 + 1, alloc_fn, free_fn, &e, uint16_t(7));
        EX_CHECK(!b.get(), "non-null");
      }
      EX_CHECK(e.nfree == 0, "freed something that was not allocated");
      ex::add();
    }
  for (int phase = 0; phase < 8; phase++) {
    ex::at("MakeUniqueAlignedWithAlloc, failing allocator");
    e.nfree = 0;
    {
      auto c = hwy::MakeUniqueAlignedWithAlloc<uint64_t>(alloc_fn, free_fn, &e, uint64_t(7));
      EX_CHECK(!c.get(), "non-null");
    }
    EX_CHECK(e.nfree == 0, "freed something that was not allocated");
    ex::add();
  }
}

template <size_t S> struct Pod { uint8_t b[S]; };
static size_t g_want;
static bool g_small;
static void* huge_alloc(void*, size_t n) {
  if (n < g_want) g_small = true;
  return nullptr;
}
static void no_free(void*, void*) { EX_FAIL("freed although nothing was allocated"); }
template <size_t S>
static void overflow() {
  const size_t maxn = size_t(-1) / S;
  for (int k = -3; k <= 40; k++)
    for (int div = 0; div < 8; div++) {
      const size_t items = (k <= 0 ? maxn : maxn >> div) + k;
      if (!items) continue;
      ex::at("items=%zu of %zu bytes", items, S);
      // the product as an exact 128-bit number
      const unsigned __int128 want = (unsigned __int128)items * S;
      g_want = want > size_t(-1) ? size_t(-1) : (size_t)want;
      g_small = false;
      auto a = hwy::AllocateAligned<Pod<S>>(items, huge_alloc, no_free, nullptr);
      EX_CHECK(!a.get() && !g_small, "asked the allocator for too few bytes");
      auto b = hwy::MakeUniqueAlignedArrayWithAlloc<Pod<S>>(items, huge_alloc, no_free, nullptr);
      EX_CHECK(!b.get() && !g_small, "asked the allocator for too few bytes");
      // Product exceeds the address space: the default allocator must fail too.
      if (want > size_t(-1) / 2) {
        hwy::AlignedAllocator<Pod<S>> al;
        auto* q = al.allocate(items);
        EX_CHECK(!q, "AlignedAllocator::allocate(%zu) of %zu-byte items succeeded", items, S);
        if (q) al.deallocate(q, items);
      }
      ex::add();
    }
}
GROUP(overflow) {
  overflow<1>(); overflow<2>(); overflow<3>(); overflow<4>(); overflow<5>(); overflow<7>(); overflow<8>(); overflow<12>(); overflow<16>(); overflow<24>(); overflow<64>(); overflow<100>(); overflow<128>(); overflow<4096>();
}

// Objects: constructed and destroyed exactly once each, before the free.
static std::map<void*, int> live;
static int ctor, dtor;
template <size_t S>
struct Obj {
  uint8_t b[S];
  explicit Obj(int v) {
    memset(b, v, S);
    EX_CHECK(live[this] == 0, "constructed twice");
    live[this] = v;
    ctor++;
  }
  ~Obj() {
    EX_CHECK(live[this] == b[0] && b[S - 1] == b[0] && b[0], "destroyed an object that is not alive");
    live.erase(this);
    dtor++;
  }
};
static void obj_free(void* o, void* p) {
  EX_CHECK(live.empty(), "memory released with %zu objects alive", live.size());
  free_fn(o, p);
}
template <size_t S>
static void objects() {
  Env e;
  ex::Guard g(1 << 16);
  e.g = &g;
  for (size_t items = 1; items <= 40; items++)
    for (int right = 0; right < 2; right++)
      for (size_t m : {0u, 1u, 8u, 127u, 1023u}) {
        ex::at("%zu objects of %zu bytes, base%%2048=%zu", items, S, m);
        e.misalign = m;
        e.right = right;
        e.nfree = ctor = dtor = 0;
        live.clear();
        {
          auto a = hwy::MakeUniqueAlignedArrayWithAlloc<Obj<S>>(items, alloc_fn, obj_free, &e, 5);
          check_ptr(e, a.get(), items * S);
          EX_CHECK(ctor == (int)items && live.size() == items, "constructed %d", ctor);
          for (size_t i = 0; i < items; i++) EX_CHECK(live.count(&a[i]), "item %zu not constructed", i);
        }
        EX_CHECK(dtor == (int)items && live.empty() && e.nfree == 1 && e.freed == e.last, "destroyed %d of %zu, %d frees", dtor, items, e.nfree);
        if (items == 1) {
          e.nfree = ctor = dtor = 0;
          {
            auto a = hwy::MakeUniqueAlignedWithAlloc<Obj<S>>(alloc_fn, obj_free, &e, 6);
            check_ptr(e, a.get(), S);
            EX_CHECK(ctor == 1, "constructed %d", ctor);
          }
          EX_CHECK(dtor == 1 && live.empty() && e.nfree == 1 && e.freed == e.last, "destroyed %d", dtor);
        }
        ex::add();
      }
}
GROUP(objects) { objects<1>(); objects<2>(); objects<3>(); objects<4>(); objects<12>(); objects<16>(); objects<24>(); objects<100>(); }

// All histories of up to `depth` allocations and releases of 4 slots, with the
// real allocator: live blocks never overlap and keep their contents.
static const size_t kSizes[4] = {1, 128, 1000, 4097};
static void history(int depth, void** slot, uint8_t tag, char* path, int n) {
  for (int s = 0; s < 4; s++) {
    path[n] = "abcd"[s];
    path[n + 1] = 0;
    ex::at("history %s", path);
    void* old = slot[s];
    uint8_t save = 0;
    if (!old) {
      uint8_t* p = (uint8_t*)hwy::AllocateAlignedBytes(kSizes[s]);
      EX_CHECK((uintptr_t)p % HWY_ALIGNMENT == 0, "unaligned");
      for (int k = 0; k < 4; k++)
        if (slot[k]) {
          uint8_t* q = (uint8_t*)slot[k];
          EX_CHECK(p + kSizes[s] <= q || q + kSizes[k] <= p, "blocks %d and %d overlap", s, k);
        }
      memset(p, 0x10 + s, kSizes[s]);
      slot[s] = p;
    } else {
      save = 1;
      for (size_t i = 0; i < kSizes[s]; i++) if (((uint8_t*)old)[i] != 0x10 + s) { EX_FAIL("block %d was overwritten at %zu", s, i); break; }
      hwy::FreeAlignedBytes(old, nullptr, nullptr);
      slot[s] = nullptr;
    }
    ex::add();
    if (depth > 1 && !ex::many()) history(depth - 1, slot, tag, path, n + 1);
    // undo by the opposite operation
    if (!save) {
      hwy::FreeAlignedBytes(slot[s], nullptr, nullptr);
      slot[s] = nullptr;
    } else {
      slot[s] = hwy::AllocateAlignedBytes(kSizes[s]);
      memset(slot[s], 0x10 + s, kSizes[s]);
    }
  }
}
GROUP(histories) {
  void* slot[4] = {};
  char path[32];
  history(ex::thorough() ? 10 : 8, slot, 0, path, 0);
}
GROUP(vectors) {
  // growth keeps contents and alignment
  for (size_t n = 0; n < 600; n++) {
    ex::at("AlignedVector of %zu", n);
    hwy::AlignedVector<uint32_t> v(n, 3u);
    v.push_back(4u);
    v.resize(n + 2, 5u);
    EX_CHECK((uintptr_t)v.data() % HWY_ALIGNMENT == 0, "unaligned");
    bool ok = v[n] == 4 && v[n + 1] == 5;
    for (size_t i = 0; i < n; i++) ok &= v[i] == 3;
    EX_CHECK(ok, "contents");
    ex::add();
  }
}

template <size_t A>
static void nd(std::array<size_t, A> shape) {
  using namespace hwy;
  AlignedNDArray<float, A> a(shape);
  size_t total = 1, rows = 1;
  for (size_t k = 0; k < A; k++) { total *= shape[k]; if (k + 1 < A) rows *= shape[k]; }
  ex::at("shape %zu.. last %zu axes %zu", shape[0], shape[A - 1], A);
  EX_CHECK(a.size() == total, "size %zu", a.size());
  EX_CHECK(a.memory_size() >= total, "memory_size %zu", a.memory_size());
  float* lo = a.data();
  float* hi = lo + a.memory_size();
  for (float* p = lo; p < hi; p++) if (*p != 0) { EX_FAIL("not zeroed"); break; }
  std::vector<char> used(a.memory_size());
  for (size_t r = 0; r < rows; r++) {
    std::array<size_t, A - 1> idx{};
    size_t q = r;
    for (size_t k = A - 1; k-- > 0;) { idx[k] = q % shape[k]; q /= shape[k]; }
    std::array<const size_t, A - 1> cidx = [&] { if constexpr (A == 1) return std::array<const size_t, 0>{}; else if constexpr (A == 2) return std::array<const size_t, 1>{idx[0]}; else if constexpr (A == 3) return std::array<const size_t, 2>{idx[0], idx[1]}; else return std::array<const size_t, 3>{idx[0], idx[1], idx[2]}; }();
    auto s = a[cidx];
    EX_CHECK(s.size() == shape[A - 1], "row size %zu", s.size());
    EX_CHECK((uintptr_t)s.data() % HWY_MIN((size_t)HWY_ALIGNMENT, hwy::VectorBytes()) == 0, "row %zu unaligned", r);
    if (s.data() < lo || s.data() + s.size() > hi) { EX_FAIL("row %zu outside", r); return; }
    // Whole vectors can be accessed from the first to the last element.
    const size_t lanes = HWY_MAX(size_t(1), hwy::VectorBytes() / sizeof(float));
    const size_t padded = (s.size() + lanes - 1) / lanes * lanes;
    if (s.data() + padded > hi) EX_FAIL("row %zu not padded to whole vectors", r);
    for (size_t i = 0; i < padded && s.data() + i < hi; i++) {
      char& u = used[s.data() + i - lo];
      if (u) { EX_FAIL("row %zu overlaps another", r); break; }
      u = 1;
    }
  }
  ex::add();
  // truncation keeps the layout
  if (total > 1) {
    std::array<size_t, A> t = shape;
    for (size_t k = 0; k < A; k++) t[k] = (t[k] + 1) / 2;
    std::array<size_t, A> ms = a.memory_shape();
    for (size_t i = 0; i < a.memory_size(); i++) a.data()[i] = (float)(i % 4000);
    a.truncate(t);
    EX_CHECK(a.shape() == t && a.memory_shape() == ms, "truncate");
    size_t tt = 1;
    for (size_t k = 0; k < A; k++) tt *= t[k];
    EX_CHECK(a.size() == tt, "truncated size");
    if constexpr (A == 2) {
      auto s = a[{t[0] - 1}];
      EX_CHECK(s.size() == t[1] && s.data() == a.data() + (t[0] - 1) * ms[1], "row moved by truncate");
    }
  }
}
GROUP(ndarray) {
  for (size_t x = 1; x <= 140; x++) nd<1>({x});
  for (size_t y = 1; y <= 6; y++)
    for (size_t x = 1; x <= 140; x++) {
      nd<2>({y, x});
      if (x < 70) for (size_t z = 1; z <= 3; z++) { nd<3>({z, y, x}); if (x < 20) nd<4>({2, z, y, x}); }
    }
}
int main(int argc, char** argv) { return ex::main(argc, argv); }
