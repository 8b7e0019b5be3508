#include "types.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
typedef __int128 big;
template <typename T> struct W { typedef big type; };
template <> struct W<double> { typedef double type; };

template <typename T>
static void One(T x, T y, T w, T h, T x2, T y2, T w2, T h2) {
  typedef typename W<T>::type B;
  hx::Case([=] {
    std::ostringstream o;
    o.precision(17);
    o << "boxes (" << +x << "," << +y << "," << +w << "," << +h << ") (" << +x2 << "," << +y2 << ","
      << +w2 << "," << +h2 << ") type " << (std::is_floating_point<T>::value ? "double" : sizeof(T) == 8 ? "uint64" : std::is_signed<T>::value ? "int32" : "uint32");
    return o.str();
  }, w > 0 && h > 0 && w2 > 0 && h2 > 0);
  BoundingBox<T> a(x, y, w, h), b(x2, y2, w2, h2);
  B ix = std::min<B>((B)x + w, (B)x2 + w2) - std::max<B>(x, x2);
  B iy = std::min<B>((B)y + h, (B)y2 + h2) - std::max<B>(y, y2);
  B in = (ix > 0 && iy > 0) ? ix * iy : (B)0;
  B un = (B)w * h + (B)w2 * h2 - in;
  auto eq = [](T got, B want) { return std::is_floating_point<T>::value ? hx::Near((double)got, (double)want) : (B)got == want; };
  hx::Check(eq(a.Area(), (B)w * h), "Area is not width times height");
  hx::Check(eq(a.IntersectionArea(b), in), "IntersectionArea is not the common area: " + hx::Str(+a.IntersectionArea(b)));
  hx::Check(eq(b.IntersectionArea(a), in), "IntersectionArea depends on the order");
  hx::Check(eq(IntersectionArea(a, b), in), "free IntersectionArea differs");
  bool ufits = std::is_floating_point<T>::value || (std::is_signed<T>::value ? (B)w * h + (B)w2 * h2 : un) <= (B)std::numeric_limits<T>::max();
  if (ufits) {
    hx::Check(eq(a.UnionArea(b), un), "UnionArea is not the combined area: " + hx::Str(+a.UnionArea(b)));
    hx::Check(eq(b.UnionArea(a), un), "UnionArea depends on the order");
    hx::Check(eq(UnionArea(a, b), un), "free UnionArea differs");
    if (std::is_floating_point<T>::value || (B)w * h * 2 <= (B)std::numeric_limits<T>::max())
      hx::Check(eq(a.UnionArea(a), (B)w * h), "UnionArea with itself");
  }
  hx::Check(eq(a.IntersectionArea(a), (B)w * h), "IntersectionArea with itself");
  DocumentBoundingBox<T> da("p", x, y, w, h), db("p", x2, y2, w2, h2), dc("q", x2, y2, w2, h2);
  hx::Check(eq(da.IntersectionArea(db), in), "document box IntersectionArea (same document)");
  hx::Check(eq(IntersectionArea(da, db), in), "free IntersectionArea of document boxes");
  hx::Check(eq(da.IntersectionArea(dc), 0), "boxes of different documents share area");
  hx::Check(eq(dc.IntersectionArea(da), 0), "boxes of different documents share area");
  if (ufits) {
    hx::Check(eq(da.UnionArea(db), un), "document box UnionArea (same document)");
    hx::Check(eq(UnionArea(da, db), un), "free UnionArea of document boxes");
  }
  if (std::is_floating_point<T>::value || (B)w * h + (B)w2 * h2 <= (B)std::numeric_limits<T>::max()) {
    hx::Check(eq(da.UnionArea(dc), (B)w * h + (B)w2 * h2), "UnionArea across documents is the sum");
    hx::Check(eq(UnionArea(dc, da), (B)w * h + (B)w2 * h2), "UnionArea across documents is the sum");
  }
}
static void Events(uint32_t x, uint32_t y, uint32_t w, uint32_t h, uint32_t x2, uint32_t y2, uint32_t w2, uint32_t h2) {
  DBox a("d", x, y, w, h), b(hx::Coin(3, 4) ? "d" : "e", x2, y2, w2, h2);
  Ref r("q", a);
  Hyp p("q", b, 0.5f);
  hx::CheckEq(r.Area(), a.Area(), "event Area");
  hx::CheckEq(p.Area(), b.Area(), "event Area");
  hx::CheckEq(IntersectionArea(r, p), a.IntersectionArea(b), "event IntersectionArea");
  hx::CheckEq(UnionArea(r, p), a.UnionArea(b), "event UnionArea");
}
static int64_t Edge(int64_t hi) {
  switch (hx::Below(6)) {
    case 0: return hx::In(0, 3);
    case 1: return hx::In(hi - 3, hi);
    case 2: return hx::In(0, hi);
    case 3: return (int64_t)1 << hx::Below(31);
    case 4: return ((int64_t)1 << hx::Below(31)) - 1;
    default: return hx::In(0, 70000);
  }
}
template <typename T> static void Random() {
  const big hi = std::numeric_limits<T>::max();
  const int64_t top = sizeof(T) == 8 ? (int64_t)1 << 31 : (int64_t)hi;
  int64_t v[8];
  for (int tries = 0; tries < 200; ++tries) {
    for (int i = 0; i < 8; ++i) v[i] = Edge(top) & (sizeof(T) == 8 ? ~0ll : top);
    if (hx::Coin()) { v[4] = v[0] + hx::In(-2, 2); v[5] = v[1] + hx::In(-2, 2); if (v[4] < 0) v[4] = 0; if (v[5] < 0) v[5] = 0; }
    if (std::is_signed<T>::value && hx::Coin()) { v[0] = -v[0] / 2; v[1] = -v[1] / 2; v[4] = -v[4] / 2; v[5] = -v[5] / 2; }
    bool ok = true;
    for (int k = 0; k < 8; k += 4) {
      if ((big)v[k] + v[k + 2] > hi || (big)v[k + 1] + v[k + 3] > hi || (big)v[k + 2] * v[k + 3] > hi) {
        if (v[k + 2] && v[k + 3]) v[k + 3] = (int64_t)std::min<big>(hi / v[k + 2], v[k + 3]);
        if ((big)v[k] + v[k + 2] > hi) v[k] = (int64_t)(hi - v[k + 2]);
        if ((big)v[k + 1] + v[k + 3] > hi) v[k + 1] = (int64_t)(hi - v[k + 3]);
        if (v[k] > (int64_t)top || v[k + 1] > (int64_t)top) ok = false;
      }
      for (int j = 0; j < 4; ++j) if ((big)v[k + j] > hi || (big)v[k + j] < (big)std::numeric_limits<T>::min()) ok = false;
    }
    if (!ok) continue;
    One<T>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    if (std::is_same<T, uint32_t>::value) Events(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    return;
  }
}
static void Run() {
  for (int i = 0; i < 65536; ++i) {
    int v[8];
    for (int k = 0; k < 8; ++k) v[k] = (i >> (2 * k)) & 3;
    One<uint32_t>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
    if (i % 5 == 0) One<int32_t>(v[0] - 2, v[1] - 2, v[2], v[3], v[4] - 2, v[5] - 2, v[6], v[7]);
    if (i % 7 == 0) One<double>(v[0] * .5 - 1, v[1], v[2] * .25, v[3], v[4], v[5], v[6], v[7] * .75);
    if (i % 3 == 0) Events(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]);
  }
  while (hx::TimeLeft()) {
    for (int i = 0; i < 200; ++i) { Random<uint32_t>(); Random<int32_t>(); Random<uint64_t>(); }
    One<double>(hx::In(-100, 100) * .5, hx::In(-100, 100) * .25, hx::In(0, 100) * .5, hx::In(0, 100) * .5,
                hx::In(-100, 100) * .5, hx::In(-100, 100) * .25, hx::In(0, 100) * .5, hx::In(0, 100) * .5);
  }
}
HX_MAIN(Run)
