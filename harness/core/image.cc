// P11: AlignedNDArray and images.
#define VERIF_WRAP_MAIN
#include "core/arena_alloc.h"
#include "hwy/aligned_allocator.h"
#include "hwy/contrib/image/image.h"
#include "hwy/per_target.h"
#include "hwy/targets.h"
#include <array>
using heap::H; using heap::Raw; using vt::Ev;
namespace vt { inline std::string J(const heap::Raw& r) { return r.s; } }
template <class T> T Val(uint64_t i) { uint64_t m = i * 0x9E3779B97F4A7C15ull; m ^= m >> 29; T t; memcpy(&t, &m, sizeof(T)); if constexpr (std::is_floating_point<T>::value) t = static_cast<T>(i % 8388593); return t; }

template <class T, size_t A> std::vector<size_t> Vec(const std::array<size_t, A>& a) { return std::vector<size_t>(a.begin(), a.end()); }
template <class T, size_t A> void Rows(hwy::AlignedNDArray<T, A>& nd, const std::array<size_t, A>& shape, const char* what, uint64_t tag, bool check_only) {
  // every row: offset in elements, span size, contents
  std::vector<std::vector<long>> rows;
  std::vector<size_t> idx(A - 1, 0);
  size_t n = 1; for (size_t k = 0; k + 1 < A; ++k) n *= shape[k];
  bool same = true, ok = true;
  for (size_t r = 0; r < n; ++r) {
    size_t q = r;
    for (size_t k = A - 1; k-- > 0;) { idx[k] = q % shape[k]; q /= shape[k]; }
    hwy::Span<T> sp; hwy::Span<const T> cs;
    const auto& cnd = nd;
    if constexpr (A == 1) { sp = nd[{}]; cs = cnd[{}]; }
    if constexpr (A == 2) { sp = nd[{idx[0]}]; cs = cnd[{idx[0]}]; }
    if constexpr (A == 3) { sp = nd[{idx[0], idx[1]}]; cs = cnd[{idx[0], idx[1]}]; }
    if constexpr (A == 4) { sp = nd[{idx[0], idx[1], idx[2]}]; cs = cnd[{idx[0], idx[1], idx[2]}]; }
    same = same && sp.data() == cs.data() && sp.size() == cs.size();
    std::vector<long> row(idx.begin(), idx.end());
    row.push_back(sp.data() - nd.data()); row.push_back(sp.size());
    rows.push_back(row);
    uint64_t key = 0; for (size_t v : idx) key = key * 1000 + v;
    for (size_t x = 0; x < sp.size(); ++x) {
      if (row[A - 1] < 0 || row[A - 1] + x >= nd.memory_size()) { ok = false; break; }
      if (check_only) ok = ok && sp[x] == (tag ? Val<T>(tag + key * 4096 + x) : T(0));
    }
  }
  if (!check_only) {
    for (size_t r = 0; r < n; ++r) {
      long off = rows[r][A - 1];
      uint64_t key = 0; for (size_t k = 0; k + 1 < A; ++k) key = key * 1000 + rows[r][k];
      for (long x = 0; x < rows[r][A]; ++x) if (off >= 0 && off + x < long(nd.memory_size())) nd.data()[off + x] = Val<T>(tag + key * 4096 + x);
    }
  }
  Ev(what, Vec<T, A>(nd.shape()), Vec<T, A>(nd.memory_shape()), nd.size(), nd.memory_size(), rows, same && ok);
}
template <class T, size_t A> void NDEpisode(vt::Rng& rng) {
  std::array<size_t, A> shape;
  size_t total = 1;
  for (size_t k = 0; k < A; ++k) {
    shape[k] = k + 1 == A ? 1 + rng.below(rng.below(4) == 0 ? 300 : 70) : 1 + rng.below(A == 4 ? 3 : A == 3 ? 4 : 9);
    total *= shape[k];
  }
  const size_t vb = hwy::VectorBytes();
  H().on = true;
  hwy::AlignedNDArray<T, A> nd(shape);
  H().on = false;
  Ev("nd", sizeof(T), vb, Vec<T, A>(shape), Raw{H().Take()}, H().Off(nd.data()));
  Rows<T, A>(nd, shape, "rows", 0, true);
  uint64_t tag = 1 + rng.next() % 1000000;
  Rows<T, A>(nd, shape, "rows", tag, false);
  Rows<T, A>(nd, shape, "rows", tag, true);
  for (int t = rng.below(3); t > 0; --t) {
    for (size_t k = 0; k < A; ++k) shape[k] = 1 + rng.below(shape[k]);
    nd.truncate(shape);
    Ev("truncate", Vec<T, A>(shape));
    Rows<T, A>(nd, shape, "rows", tag, true);
  }
  hwy::AlignedNDArray<T, A> mv(std::move(nd));
  Rows<T, A>(mv, shape, "rows", tag, true);
  H().on = true;
  { hwy::AlignedNDArray<T, A> die(std::move(mv)); }
  H().on = false;
  Ev("enddel", Raw{H().Take()}, H().Guards());
}

template <class T> struct Im {
  using I = hwy::Image<T>;
  I im[4];
  uint64_t tag[4] = {0, 0, 0, 0};
  long tmax[4] = {0, 0, 0, 0};   // stride of the tag grid
  void Report(int s) {
    I& m = im[s];
    std::vector<long> rows;
    bool ok = true;
    for (size_t y = 0; y < m.ysize() && m.xsize(); ++y) {
      rows.push_back(H().Off(m.ConstRow(y)));
      ok = ok && m.MutableRow(y) == m.ConstRow(y) && const_cast<const I&>(m).ConstRow(y) == m.ConstRow(y);
      const T* r = m.ConstRow(y);
      for (size_t x = 0; x < m.xsize(); ++x) ok = ok && r[x] == Val<T>(tag[s] + y * 65536 + x);
    }
    Ev("report", s, m.xsize(), m.ysize(), m.bytes_per_row(), (long)m.PixelsPerRow(), H().Off(m.bytes()), rows, ok);
  }
  // Writes all pixels and, per row, a whole aligned vector beyond the last sample of the LAST row.
  void Fill(int s, uint64_t t) {
    I& m = im[s]; tag[s] = t;
    for (size_t y = 0; y < m.ysize() && m.xsize(); ++y) { T* r = m.MutableRow(y); for (size_t x = 0; x < m.xsize(); ++x) r[x] = Val<T>(t + y * 65536 + x); }
  }
};
template <class T> void ImageEpisode(vt::Rng& rng) {
  const size_t vb = hwy::ImageBase::VectorSize();
  Ev("start", sizeof(T), vb, hwy::VectorBytes());
  Im<T> w;
  std::vector<void*> ext;
  int steps = 6 + rng.below(10);
  for (int t = 0; t < steps; ++t) {
    int i = rng.below(4), j = (i + 1 + rng.below(3)) % 4;
    uint32_t op = rng.below(12);
    size_t x = rng.below(12) == 0 ? 0 : 1 + rng.below(rng.below(3) ? 90 : 2100), y = rng.below(12) == 0 ? 0 : 1 + rng.below(5);
    if (rng.below(5) == 0) { size_t q = (rng.below(8) + 1) * 2048 / sizeof(T); x = q - rng.below(2 * vb / sizeof(T) + 2 > q ? q : 2 * vb / sizeof(T) + 2); if (!x) x = 1; }
    if (op < 4) {
      H().on = true; w.im[i] = typename Im<T>::I(x, y); H().on = false;
      Ev("image", i, x, y, Raw{H().Take()});
      w.Fill(i, rng.next() >> 16);
    } else if (op == 4) {
      size_t bpr = hwy::ImageBase::BytesPerRow(x ? x : 1, sizeof(T));
      if (rng.below(2)) bpr = ((x ? x : 1) * sizeof(T) + vb - 1) / vb * vb + vb * rng.below(3);
      if (rng.below(2)) { bpr = (bpr + 63) / 64 * 64; }
      else { bpr = (bpr + 127) / 128 * 128; }
      if (bpr % vb) bpr = (bpr + vb - 1) / vb * vb;
      H().on = true;
      size_t nb = bpr * (y ? y : 1);
      void* mem = hwy::AllocateAlignedBytes(nb); H().on = false; H().Take();
      ext.push_back(mem);
      H().on = true; w.im[i] = typename Im<T>::I(x, y, bpr, mem); H().on = false;
      Ev("extern", i, x, y, bpr, H().Off(mem), nb, Raw{H().Take()});
      w.Fill(i, rng.next() >> 16);
    } else if (op < 7) {
      H().on = true; w.im[i] = std::move(w.im[j]); H().on = false;
      w.tag[i] = w.tag[j];
      Ev("move", i, j, Raw{H().Take()});
      // a moved-from image may only be assigned to or destroyed
      H().on = true; w.im[j] = typename Im<T>::I(); H().on = false;
      Ev("clear", j, Raw{H().Take()});
    } else if (op < 9) {
      H().on = true; w.im[i].Swap(w.im[j]); H().on = false;
      std::swap(w.tag[i], w.tag[j]);
      Ev("swap", i, j, Raw{H().Take()});
    } else if (op < 11) {
      size_t nx = rng.below(w.im[i].xsize() + 1), ny = rng.below(w.im[i].ysize() + 1);
      H().on = true; w.im[i].ShrinkTo(nx, ny); H().on = false;
      Ev("shrink", i, nx, ny, Raw{H().Take()});
    } else { w.Fill(i, rng.next() >> 16); }
    for (int s = 0; s < 4; ++s) w.Report(s);
  }
  for (int s = 0; s < 4; ++s) {
    H().on = true; w.im[s] = typename Im<T>::I(); H().on = false;
    Ev("clear", s, Raw{H().Take()});
  }
  H().on = true; for (void* p : ext) hwy::FreeAlignedBytes(p, nullptr, nullptr); H().on = false; H().Take();
  Ev("endimg", H().live.size(), H().Guards());
}
template <class T> void Image3Episode(vt::Rng& rng) {
  using I3 = hwy::Image3<T>;
  size_t x = 1 + rng.below(200), y = 1 + rng.below(5);
  H().on = true; I3 a(x, y); H().on = false;
  I3 b;
  size_t vb = hwy::VectorBytes();
  auto rep = [&](I3& m, uint64_t tag, const char* what, const std::string& calls) {
    std::vector<std::vector<long>> pl; bool ok = true;
    const I3& cm = m;
    for (size_t c = 0; c < 3; ++c) {
      std::vector<long> rows;
      for (size_t r = 0; r < m.ysize(); ++r) {
        T* p = m.MutablePlaneRow(c, r);
        ok = ok && p == m.ConstPlaneRow(c, r) && p == cm.ConstPlaneRow(c, r) && p == cm.MutablePlaneRow(c, r) && p == m.Plane(c).ConstRow(r);
        rows.push_back(H().Off(p));
        for (size_t k = 0; k < m.xsize(); ++k) ok = ok && p[k] == Val<T>(tag + (c * 16 + r) * 65536 + k);
      }
      ok = ok && m.Plane(c).xsize() == m.xsize() && m.Plane(c).ysize() == m.ysize();
      pl.push_back(rows);
    }
    Ev(what, sizeof(T), vb, m.xsize(), m.ysize(), m.bytes_per_row(), (long)m.PixelsPerRow(), pl, ok, Raw{calls});
  };
  auto fill = [&](I3& m, uint64_t tag) {
    for (size_t c = 0; c < 3; ++c) for (size_t r = 0; r < m.ysize(); ++r) { T* p = m.MutablePlaneRow(c, r); for (size_t k = 0; k < m.xsize(); ++k) p[k] = Val<T>(tag + (c * 16 + r) * 65536 + k); }
  };
  uint64_t tag = rng.next() >> 16;
  std::string ca = H().Take();
  fill(a, tag); rep(a, tag, "image3", ca);
  if (rng.below(2)) { b = std::move(a); } else b.Swap(a);
  rep(b, tag, "same3", "[]");
  if (rng.below(2)) { H().on = true; hwy::Image<T> p0(x, y), p1(x, y), p2(x, y); H().on = false; ca = H().Take(); I3 c(std::move(p0), std::move(p1), std::move(p2)); fill(c, tag + 1); rep(c, tag + 1, "image3", ca); I3 d(std::move(c)); rep(d, tag + 1, "same3", "[]"); H().on = true; d = I3(); H().on = false; H().Take(); }
  size_t nx = 1 + rng.below(x), ny = 1 + rng.below(y);
  b.ShrinkTo(nx, ny);
  Ev("shrink3", nx, ny);
  rep(b, tag, "same3", "[]");
  H().on = true; b = I3(); H().on = false; H().Take();
  Ev("endimg", H().live.size(), H().Guards());
}
static void RectEpisode(vt::Rng& rng) {
  for (int k = 0; k < 40; ++k) {
    size_t lim = 1 + rng.below(rng.below(2) ? 6 : 40);
    size_t xb = rng.below(lim + 2), yb = rng.below(lim + 2), xm = rng.below(lim + 2), ym = rng.below(lim + 2), xe = rng.below(lim + 2), ye = rng.below(lim + 2);
    hwy::Rect r(xb, yb, xm, ym, xe, ye);
    Ev("rect", xb, yb, xm, ym, xe, ye, r.x0(), r.y0(), r.xsize(), r.ysize());
    size_t sx = rng.below(lim), sy = rng.below(lim), sm = rng.below(lim), sn = rng.below(lim);
    hwy::Rect s = r.Subrect(sx, sy, sm, sn);
    Ev("subrect", r.x0(), r.y0(), r.xsize(), r.ysize(), sx, sy, sm, sn, std::vector<size_t>{s.x0(), s.y0(), s.xsize(), s.ysize()});
    size_t ix = 1 + rng.below(lim), iy = 1 + rng.below(lim);
    hwy::ImageF im(ix, iy);
    Ev("inside", r.x0(), r.y0(), r.xsize(), r.ysize(), ix, iy, r.IsInside(im));
    hwy::Rect full(im), copy(r), dflt;
    Ev("rect4", ix, iy, std::vector<size_t>{full.x0(), full.y0(), full.xsize(), full.ysize()}, std::vector<size_t>{dflt.x0(), dflt.y0(), dflt.xsize(), dflt.ysize()});
    if (r.IsInside(im) && r.ysize() && r.y0() < iy) {
      size_t y = rng.below(r.ysize());
      Ev("rectrow", r.x0(), r.y0(), y, im.bytes_per_row() / 4, long(r.ConstRow(&im, y) - im.ConstRow(0)), long(r.MutableRow(&im, y) - im.ConstRow(0)), hwy::SameSize(r, im), ix == r.xsize() && iy == r.ysize());
      hwy::Image3F i3(ix, iy);
      Ev("rectrow", r.x0(), r.y0(), y, i3.bytes_per_row() / 4, long(r.ConstPlaneRow(i3, 1, y) - i3.ConstPlaneRow(1, 0)), long(r.MutablePlaneRow(&i3, 2, y) - i3.ConstPlaneRow(2, 0)), hwy::SameSize(im, i3), true);
    }
    long size = 1 + rng.below(lim), c = long(rng.below(7 * size)) - 3 * size;
    Ev("mirror", c, size, hwy::Mirror(c, size), hwy::WrapMirror()(c, size));
    if (c >= 0) Ev("same", c, hwy::WrapUnchanged()(c, size));
    hwy::WrapRowMirror wr(im, iy);
    long stride = im.bytes_per_row() / 4;
    long ry = long(rng.below(3 * iy)) - long(iy);
    const float* base = im.ConstRow(0);
    intptr_t res = reinterpret_cast<intptr_t>(wr(reinterpret_cast<const float*>(reinterpret_cast<intptr_t>(base) + ry * stride * 4), stride)) - reinterpret_cast<intptr_t>(base);
    Ev("wraprow", ry, iy, res / (stride * 4), res % (stride * 4));
  }
}
int main(int argc, char** argv) {
  auto a = vt::Init(argc, argv);
  const int eps = a.thorough ? 1400 : 280;
  std::vector<int64_t> targets = hwy::SupportedAndGeneratedTargets();
  const int64_t all = hwy::SupportedTargets();
  for (int e = 0; e < eps; ++e) {
    vt::Rng rng(a.seed * 65537 + e);
    H().Reset(rng.next());
    H().mode = e % 4;
    hwy::SetSupportedTargetsForTest(rng.below(2) ? targets[rng.below(targets.size())] : 0);
    hwy::GetChosenTarget().Update(hwy::SupportedTargets());
    vt::Begin();
    switch (e % 14) {
      case 0: NDEpisode<uint8_t, 1>(rng); break;
      case 1: NDEpisode<float, 2>(rng); break;
      case 2: NDEpisode<uint16_t, 3>(rng); break;
      case 3: NDEpisode<double, 4>(rng); break;
      case 4: NDEpisode<uint8_t, 2>(rng); break;
      case 5: NDEpisode<uint16_t, 2>(rng); break;
      case 6: case 7: ImageEpisode<float>(rng); break;
      case 8: ImageEpisode<uint8_t>(rng); break;
      case 9: ImageEpisode<uint16_t>(rng); break;
      case 10: ImageEpisode<double>(rng); break;
      case 11: Image3Episode<float>(rng); break;
      case 12: Image3Episode<uint8_t>(rng); break;
      default: RectEpisode(rng);
    }
    vt::End();
  }
  return vt::Done();
}
