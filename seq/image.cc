// C10: images of every small size under every vector size: rows aligned,
// padded, disjoint and inside memory owned by the image; rectangles; mirrors.
#include <map>
#include "ex.h"
#include "hwy/contrib/image/image.h"
#include "hwy/targets.h"

// Scripted allocator in place of aligned_allocator.cc: exact sizes, the block
// ends right before an inaccessible page, ownership is recorded.
namespace {
struct Blk { size_t size; ex::Guard* g; };
std::map<uint8_t*, Blk> blocks;
int bad_free;
bool fail_alloc;
}  // namespace
namespace hwy {
void* AllocateAlignedBytes(const size_t n, AllocPtr, void*) {
  if (fail_alloc || n == 0) return nullptr;
  ex::Guard* g = new ex::Guard(n + 256);
  uint8_t* p = g->end() - n;
  p -= (uintptr_t)p % HWY_ALIGNMENT;
  memset(g->begin(), 0xA5, g->end() - g->begin());
  blocks[p] = Blk{n, g};
  return p;
}
void FreeAlignedBytes(const void* p, FreePtr fp, void* o) {
  if (!p) return;
  if (fp) { fp(o, const_cast<void*>(p)); return; }
  auto it = blocks.find((uint8_t*)p);
  if (it == blocks.end()) { bad_free++; return; }
  for (uint8_t* q = (uint8_t*)p + it->second.size; q < it->second.g->end(); q++)
    if (*q != 0xA5) { EX_FAIL("memory after the image was written"); break; }
  delete it->second.g;
  blocks.erase(it);
}
void AlignedDeleter::DeleteAlignedArray(void* p, FreePtr f, void* o, ArrayDeleter) { FreeAlignedBytes(p, f, o); }
}  // namespace hwy

namespace {
using namespace hwy;
bool owned(const void* p, size_t n) {
  auto it = blocks.upper_bound((uint8_t*)p);
  if (it == blocks.begin()) return false;
  --it;
  return (uint8_t*)p >= it->first && (uint8_t*)p + n <= it->first + it->second.size;
}
size_t g_vec;
std::vector<int64_t> targets() {
  std::vector<int64_t> t;
  int64_t all = SupportedTargets();
  for (int64_t x = all & HWY_TARGETS; x; x &= x - 1) t.push_back(x & ~(x - 1));
  return t;
}
// Runs f under every vector size this build can have.
template <class F>
void each_vec(F f) {
  std::map<size_t, int64_t> by;
  for (int64_t t : targets()) {
    SetSupportedTargetsForTest(t);
    by[ImageBase::VectorSize()] = t;
  }
  for (auto& kv : by) {
    SetSupportedTargetsForTest(kv.second);
    g_vec = ImageBase::VectorSize();
    f();
  }
  SetSupportedTargetsForTest(0);
}
template <class T>
void verify_rows(const Image<T>& im, size_t xs, size_t ys) {
  EX_CHECK(im.xsize() == xs && im.ysize() == ys, "size %zu x %zu", im.xsize(), im.ysize());
  if (!xs || !ys) return;
  const size_t bpr = im.bytes_per_row();
  EX_CHECK((size_t)im.PixelsPerRow() * sizeof(T) == bpr, "PixelsPerRow");
  EX_CHECK(bpr % g_vec == 0, "row stride %zu is not a multiple of %zu", bpr, g_vec);
  // last vector starting at the last pixel must end before the next row
  EX_CHECK((xs - 1) * sizeof(T) + HWY_MAX(g_vec, sizeof(T)) <= bpr, "row stride %zu too small for %zu pixels of %zu bytes", bpr, xs, sizeof(T));
  for (size_t y = 0; y < ys; y++) {
    const uint8_t* r = (const uint8_t*)im.ConstRow(y);
    if (r != (const uint8_t*)im.bytes() + y * bpr || (uint8_t*)im.MutableRow(y) != r) { EX_FAIL("row %zu misplaced", y); return; }
    if ((uintptr_t)r % HWY_MAX(g_vec, (size_t)64)) { EX_FAIL("row %zu not aligned", y); return; }
    if (!owned(r, bpr) || !owned(r, (xs - 1) * sizeof(T) + g_vec)) { EX_FAIL("row %zu outside the image's memory", y); return; }
  }
}
template <class T>
void fill(Image<T>& im, int seed) {
  for (size_t y = 0; y < im.ysize(); y++) {
    T* r = im.MutableRow(y);
    for (size_t x = 0; x < im.xsize(); x++) r[x] = (T)(x * 7 + y * 131 + seed);
  }
}
template <class T>
bool intact(const Image<T>& im, int seed) {
  for (size_t y = 0; y < im.ysize(); y++) {
    const T* r = im.ConstRow(y);
    for (size_t x = 0; x < im.xsize(); x++) if (r[x] != (T)(x * 7 + y * 131 + seed)) return false;
  }
  return true;
}
template <class T>
void sizes() {
  each_vec([] {
    for (size_t xs = 0; xs <= 300; xs++) {
      if (xs > 150 && !ex::thorough() && xs % 16 > 1 && xs % 16 < 15) continue;
      for (size_t ys = 0; ys <= (xs < 40 ? 5 : 2); ys++) {
        ex::at("%zu x %zu pixels of %zu bytes, vector %zu", xs, ys, sizeof(T), g_vec);
        {
          Image<T> im(xs, ys);
          verify_rows(im, xs, ys);
          EX_CHECK(im.bytes_per_row() == (xs && ys ? ImageBase::BytesPerRow(xs, sizeof(T)) : 0), "bytes_per_row");
          im.InitializePaddingForUnalignedAccesses();
          fill(im, 1);
          // whole-vector stores starting at the last pixel stay in the row
          if (xs && ys) memset((uint8_t*)(im.MutableRow(ys - 1) + xs), 0x5A, g_vec - HWY_MIN(g_vec, sizeof(T)));
          EX_CHECK(intact(im, 1), "pixels overwritten");
          const T* row0 = xs && ys ? im.ConstRow(0) : nullptr;
          Image<T> moved(std::move(im));
          verify_rows(moved, xs, ys);
          EX_CHECK(!row0 || moved.ConstRow(0) == row0, "move copied the pixels");
          Image<T> other(xs + 1, ys + 1);
          fill(other, 2);
          other.Swap(moved);
          verify_rows(other, xs, ys);
          verify_rows(moved, xs + 1, ys + 1);
          EX_CHECK(intact(other, 1) && intact(moved, 2), "swap lost pixels");
          moved = std::move(other);
          verify_rows(moved, xs, ys);
          EX_CHECK(intact(moved, 1), "move assignment lost pixels");
          if (xs > 1 && ys) {
            moved.ShrinkTo(xs - 1, ys);
            verify_rows(moved, xs - 1, ys);
            EX_CHECK(intact(moved, 1), "shrink moved pixels");
          }
        }
        EX_CHECK(blocks.empty() && !bad_free, "%zu blocks leaked, %d wrong frees", blocks.size(), bad_free);
        for (auto& b : blocks) delete b.second.g;
        blocks.clear();
        bad_free = 0;
        ex::add();
        if (ex::many()) return;
      }
    }
  });
}
template <class T>
void strides() {
  each_vec([] {
    for (size_t xs = 1; xs <= 20000; xs++) {
      ex::at("BytesPerRow(%zu, %zu) vector %zu", xs, sizeof(T), g_vec);
      const size_t b = ImageBase::BytesPerRow(xs, sizeof(T));
      if (b % g_vec || (xs - 1) * sizeof(T) + HWY_MAX(g_vec, sizeof(T)) > b) { EX_FAIL("stride %zu", b); if (ex::many()) return; }
      ex::add();
    }
  });
}
template <class T>
void image3() {
  each_vec([] {
    for (size_t xs = 0; xs <= 70; xs++)
      for (size_t ys = 0; ys <= 3; ys++) {
        ex::at("Image3 %zu x %zu pixels of %zu bytes, vector %zu", xs, ys, sizeof(T), g_vec);
        {
          Image3<T> a(xs, ys);
          for (int c = 0; c < 3; c++) verify_rows(a.Plane(c), xs, ys);
          EX_CHECK(a.xsize() == xs && a.ysize() == ys, "size");
          for (int c = 0; c < 3; c++)
            for (size_t y = 0; y < ys && xs; y++) {
              EX_CHECK(a.ConstPlaneRow(c, y) == a.Plane(c).ConstRow(y) && a.MutablePlaneRow(c, y) == a.Plane(c).ConstRow(y), "plane row");
              for (size_t x = 0; x < xs; x++) a.MutablePlaneRow(c, y)[x] = (T)(c * 50 + y * 10 + x);
            }
          Image3<T> b(std::move(a));
          Image3<T> d(xs + 2, ys + 1);
          d.Swap(b);
          b = std::move(d);
          EX_CHECK(b.xsize() == xs && b.ysize() == ys, "size after moves");
          for (int c = 0; c < 3; c++)
            for (size_t y = 0; y < ys && xs; y++)
              for (size_t x = 0; x < xs; x++) if (b.ConstPlaneRow(c, y)[x] != (T)(c * 50 + y * 10 + x)) { EX_FAIL("pixels lost"); return; }
          if (xs && ys) {
            Image<T> p0(xs, ys), p1(xs, ys), p2(xs, ys);
            const T* r[3] = {p0.ConstRow(0), p1.ConstRow(0), p2.ConstRow(0)};
            Image3<T> e(std::move(p0), std::move(p1), std::move(p2));
            for (int c = 0; c < 3; c++) EX_CHECK(e.ConstPlaneRow(c, 0) == r[c], "plane %d is another image", c);
            if (xs > 2) { e.ShrinkTo(xs - 2, ys); for (int c = 0; c < 3; c++) verify_rows(e.Plane(c), xs - 2, ys); }
          }
        }
        EX_CHECK(blocks.empty() && !bad_free, "%zu blocks leaked", blocks.size());
        ex::add();
      }
  });
}
}  // namespace
GROUP(sizes_u8) { sizes<uint8_t>(); }
GROUP(sizes_i16) { sizes<int16_t>(); }
GROUP(sizes_f32) { sizes<float>(); }
GROUP(sizes_f64) { sizes<double>(); }
GROUP(strides) { strides<uint8_t>(); strides<uint16_t>(); strides<float>(); strides<double>(); }
GROUP(image3) { image3<uint8_t>(); image3<float>(); image3<double>(); }
GROUP(external_memory) {
  each_vec([] {
    ex::Guard g(1 << 16);
    for (size_t xs = 1; xs <= 64; xs++)
      for (size_t ys = 1; ys <= 4; ys++)
        for (size_t extra = 0; extra < 3; extra++) {
          const size_t bpr = (xs * 4 + g_vec - 1) / g_vec * g_vec + extra * g_vec;
          uint8_t* base = g.begin() + extra * g_vec;
          ex::at("external %zu x %zu stride %zu", xs, ys, bpr);
          {
            ImageF im(xs, ys, bpr, base);
            EX_CHECK(im.xsize() == xs && im.ysize() == ys && im.bytes_per_row() == bpr, "fields");
            for (size_t y = 0; y < ys; y++) EX_CHECK((uint8_t*)im.MutableRow(y) == base + y * bpr, "row %zu", y);
            ImageF m(std::move(im));
            EX_CHECK((uint8_t*)m.MutableRow(0) == base, "moved");
          }
          EX_CHECK(!bad_free && blocks.empty(), "external memory was freed");
          bad_free = 0;
          ex::add();
        }
  });
}
GROUP(rects) {
  fail_alloc = false;
  // all windows [x0, x0+max) clamped to [0, end)
  std::vector<size_t> v;
  for (size_t i = 0; i <= 6; i++) v.push_back(i);
  for (size_t m : {size_t(1) << 31, size_t(1) << 32, size_t(1) << 63, size_t(-1) - 3, size_t(-1)}) v.push_back(m);
  for (size_t b : v) for (size_t m : v) for (size_t e : v) {
    ex::at("Rect begin %zu max %zu end %zu", b, m, e);
    const size_t want = b >= e ? 0 : HWY_MIN(m, e - b);
    Rect r(b, 1, m, 2, e, 10), q(1, b, 2, m, 10, e);
    EX_CHECK(r.x0() == b && r.xsize() == want && r.y0() == 1 && r.ysize() == 2, "x size %zu, expected %zu", r.xsize(), want);
    EX_CHECK(q.y0() == b && q.ysize() == want && q.x0() == 1 && q.xsize() == 2, "y size %zu, expected %zu", q.ysize(), want);
    ex::add();
  }
  ImageF im(5, 4);
  Image3F im3(5, 4);
  for (size_t x0 = 0; x0 <= 6; x0++) for (size_t y0 = 0; y0 <= 5; y0++) for (size_t xs = 0; xs <= 6; xs++) for (size_t ys = 0; ys <= 5; ys++) {
    ex::at("Rect %zu,%zu %zux%zu in 5x4", x0, y0, xs, ys);
    Rect r(x0, y0, xs, ys);
    const bool in = x0 + xs <= 5 && y0 + ys <= 4;
    EX_CHECK(r.IsInside(im) == in && r.IsInside(im3) == in, "IsInside");
    if (in)
      for (size_t y = 0; y < ys; y++) {
        EX_CHECK(r.ConstRow(&im, y) == im.ConstRow(y + y0) + x0 && r.MutableRow(&im, y) == im.ConstRow(y + y0) + x0, "row");
        for (int c = 0; c < 3; c++) EX_CHECK(r.ConstPlaneRow(im3, c, y) == im3.ConstPlaneRow(c, y + y0) + x0 && r.MutablePlaneRow(&im3, c, y) == im3.ConstPlaneRow(c, y + y0) + x0, "plane row");
      }
    for (size_t sx = 0; sx <= 6; sx++) for (size_t sm = 0; sm <= 6; sm++) {
      Rect s = r.Subrect(sx, 1, sm, 2);
      const size_t b = x0 + sx, e = x0 + xs;
      EX_CHECK(s.x0() == b && s.y0() == y0 + 1 && s.xsize() == (b >= e ? 0 : HWY_MIN(sm, e - b)) && s.ysize() == (y0 + 1 >= y0 + ys ? 0 : HWY_MIN(size_t(2), ys - 1)), "Subrect(%zu,1,%zu,2) = %zu,%zu %zux%zu", sx, sm, s.x0(), s.y0(), s.xsize(), s.ysize());
      ex::add();
    }
    Rect c(r);
    EX_CHECK(SameSize(c, r) && c.x0() == x0 && c.y0() == y0, "copy");
    for (size_t d = 0; d < 2; d++) EX_CHECK(SameSize(Rect(0, 0, xs + d, ys + 1 - d), r) == false, "SameSize");
  }
  Rect whole(im);
  EX_CHECK(whole.x0() == 0 && whole.y0() == 0 && whole.xsize() == 5 && whole.ysize() == 4 && Rect().xsize() == 0 && Rect().ysize() == 0, "whole");
}
GROUP(mirror) {
  for (int64_t n = 1; n <= 40; n++)
    for (int64_t x = -4 * n - 3; x < 5 * n + 3; x++) {
      ex::at("Mirror(%ld, %ld)", (long)x, (long)n);
      // period 2n: 0..n-1, n-1..0
      int64_t m = ((x % (2 * n)) + 2 * n) % (2 * n);
      const int64_t want = m < n ? m : 2 * n - 1 - m;
      EX_CHECK((int64_t)Mirror(x, n) == want && (int64_t)WrapMirror()(x, (size_t)n) == want, "= %zu, expected %ld", Mirror(x, n), (long)want);
      EX_CHECK(x < 0 || (int64_t)WrapUnchanged()(x, (size_t)n) == x, "WrapUnchanged");
      ex::add();
    }
  for (size_t xs : {1u, 5u, 70u})
    for (size_t ys = 1; ys <= 9; ys++) {
      ImageF im(xs, ys);
      const int64_t stride = im.PixelsPerRow();
      WrapRowMirror w(im, ys);
      for (int64_t y = -(int64_t)ys; y < 2 * (int64_t)ys; y++)
        for (size_t x0 = 0; x0 < 1; x0++) {
          ex::at("WrapRowMirror y=%ld of %zu", (long)y, ys);
          const float* row = im.ConstRow(0) + y * stride;
          const float* want = im.ConstRow(Mirror(y, (int64_t)ys));
          EX_CHECK(w(row, stride) == want, "wrong row");
          ex::add();
        }
    }
}
int main(int argc, char** argv) { return ex::main(argc, argv); }
