#include "types.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"
using namespace kws::scorer;

static const std::vector<float> kThr = {0.f, 0.125f, 0.25f, 0.375f, 0.5f, 0.625f, 0.75f, 0.875f, 1.f};

static void One(const std::string &q1, const DBox &a, uint32_t ax, uint32_t ay, uint32_t aw, uint32_t ah,
                const std::string &d1, const std::string &q2, const std::string &d2, uint32_t bx,
                uint32_t by, uint32_t bw, uint32_t bh, float thr) {
  DBox b(d2, bx, by, bw, bh);
  Ref r(q1, a);
  Hyp h(q2, b, 0.25f);
  hx::Case([&] { return "ref (" + hx::Str(r) + ") hyp (" + hx::Str(h) + ") threshold " + hx::Str(thr); },
           q1 == q2 && bw && bh);
  int64_t ix = std::min<int64_t>(ax + (int64_t)aw, bx + (int64_t)bw) - std::max(ax, bx);
  int64_t iy = std::min<int64_t>(ay + (int64_t)ah, by + (int64_t)bh) - std::max(ay, by);
  int64_t in = (d1 == d2 && ix > 0 && iy > 0) ? ix * iy : 0;
  int64_t ra = (int64_t)aw * ah, ha = (int64_t)bw * bh, un = ra + ha - in;
  auto rule = [&](const MatchError &e, int64_t den, const char *what) {
    bool accept = false;
    if (q1 == q2 && ha > 0) {
      double ratio = (double)in / den;
      if (std::fabs(ratio - thr) < 1e-6 && ratio != (double)thr) return;  // rounding of the division
      accept = ratio >= (double)thr;
    }
    float want = accept ? 0.f : 1.f;
    if (e.FP() != want || e.FN() != want)
      hx::Fail(std::string(what) + ": got (" + hx::Str(e.FP()) + "," + hx::Str(e.FN()) + "), expected " +
               hx::Str(want));
  };
  IntersectionOverHypothesisAreaScorer<Ref, Hyp> s1(thr);
  rule(s1(r, h), ha, "hypothesis-area scorer");
  IntersectionOverUnionAreaScorer<Ref, Hyp> s2(thr);
  rule(s2(r, h), un, "union-area scorer");
  Scorer<Ref, Hyp> *base = &s1;
  rule((*base)(r, h), ha, "hypothesis-area scorer through the interface");
  SoftIntersectionOverHypothesisAreaScorer<Ref, Hyp> s3;
  MatchError e = s3(r, h);
  double fp = 1, fn = 1;
  if (q1 == q2) {
    fp = ha > 0 ? 1 - (double)in / ha : 1;
    fn = ra > 0 ? 1 - (double)in / ra : 1;
  }
  hx::CheckNear(e.FP(), fp, "soft scorer false-positive error", 1e-5);
  hx::CheckNear(e.FN(), fn, "soft scorer false-negative error", 1e-5);
  hx::Check(e.FP() >= 0 && e.FP() <= 1 && e.FN() >= 0 && e.FN() <= 1, "soft errors outside [0,1]");
}
static void Boxes(const std::string &q1, const std::string &q2, const std::string &d1, const std::string &d2,
                  const uint32_t *v, float thr) {
  DBox a(d1, v[0], v[1], v[2], v[3]);
  One(q1, a, v[0], v[1], v[2], v[3], d1, q2, d2, v[4], v[5], v[6], v[7], thr);
}
static void Run() {
  for (int i = 0; i < 6561; ++i) {
    uint32_t v[8];
    int x = i;
    for (int k = 0; k < 8; ++k) { v[k] = (uint32_t)(x % 3) * (k % 4 < 2 ? 1 : 1); x /= 3; }
    Boxes("q", "q", "d", "d", v, kThr[i % kThr.size()]);
    if (i % 9 == 0) Boxes("q", "r", "d", "d", v, 0.f);
    if (i % 11 == 0) Boxes("q", "q", "d", "e", v, kThr[i % kThr.size()]);
  }
  // exact match
  TrivialScorer<IRef, IHyp> t;
  for (int q = 0; q < 3; ++q) for (int l = -1; l < 3; ++l) for (int q2 = 0; q2 < 3; ++q2) for (int l2 = -1; l2 < 3; ++l2) {
    IRef r(q, l); IHyp h(q2, l2, 0.5f * l);
    hx::Case([&] { return "exact: ref (" + hx::Str(r) + ") hyp (" + hx::Str(h) + ")"; });
    MatchError e = t(r, h);
    float want = q == q2 && l == l2 ? 0.f : 1.f;
    hx::CheckEq(e.FP(), want, "exact-match scorer false-positive error");
    hx::CheckEq(e.FN(), want, "exact-match scorer false-negative error");
  }
  while (hx::TimeLeft()) {
    for (int i = 0; i < 200; ++i) {
      uint32_t v[8];
      uint32_t m = hx::Coin() ? 9 : hx::Coin() ? 64 : 1900;
      for (int k = 0; k < 8; ++k) v[k] = (uint32_t)hx::Below(m);
      if (hx::Coin(1, 3)) for (int k = 0; k < 4; ++k) v[4 + k] = v[k] + (uint32_t)hx::Below(3);
      if (hx::Coin(1, 4)) { v[0] = v[4]; v[1] = v[5]; v[6] = v[2]; v[7] = v[3] * 2; }
      if (hx::Coin(1, 20)) v[4 + hx::Below(4)] = 0;
      // large offsets, small areas
      if (hx::Coin(1, 6)) { uint32_t o = 4294000000u; v[0] += o; v[4] += o; }
      float thr = hx::Coin(3, 4) ? hx::Pick(kThr) : (float)hx::Below(1000) / 999.f;
      if (hx::Coin(1, 30)) thr = hx::Coin() ? 1.5f : -0.5f;
      Boxes(hx::Coin(9, 10) ? "q" : "r", "q", hx::Coin(9, 10) ? "d" : "e", "d", v, thr);
    }
  }
}
HX_MAIN(Run)
