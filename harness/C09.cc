#include "oracle.h"
template <typename E> static void One(const std::vector<E> &es, bool bounded) {
  auto p = Plain4(es);
  for (int interp = 0; interp < 2; ++interp) {
    hx::Case([&] { return std::string(interp ? "interpolated " : "plain ") + ShowV(es); }, es.size() > 1);
    orc::Ds wp, wr;
    orc::Curve(p, interp, &wp, &wr);
    std::vector<double> pr, rc;
    if (hx::Coin()) { pr.assign(hx::Below(4), 7.0); rc.assign(hx::Below(4), -7.0); }
    ComputePrecisionAndRecall(es, interp, &pr, &rc);
    CheckCurve(pr, wp, "precision");
    CheckCurve(rc, wr, "recall");
    if (!bounded) continue;
    for (size_t i = 0; i < pr.size(); ++i) {
      hx::Check(pr[i] >= 0 && pr[i] <= 1 && rc[i] >= 0 && rc[i] <= 1, "curve leaves [0,1]");
      hx::Check(i == 0 || rc[i] >= rc[i - 1], "recall decreases");
    }
  }
}
static void Body() {
  ShortErrorLists(5, [](const std::vector<MatchError> &v) { One(v, true); });
  while (hx::TimeLeft()) {
    One(RandErrors(Len(60)), true);
    One(RandCounts(Len(40), 4), true);
    auto odd = RandErrors(hx::Below(5));
    odd.push_back(MatchError(1.5f, -.5f));
    One(odd, false);
    IMs ms = RandIMs(Len(30), 2, hx::Coin());
    if (hx::Coin()) SortMatchesDecreasingScore(&ms);
    for (int c = 0; c < 2; ++c) for (int i = 0; i < 2; ++i) {
      hx::Case([&] { return (c ? "collapse " : "keep ") + std::string(i ? "interpolate " : "plain ") + ShowV(ms); });
      orc::Ds wp, wr;
      orc::Curve(orc::Errs(ms, c), i, &wp, &wr);
      std::vector<double> pr(2, 3.0), rc(1, 4.0);
      ComputePrecisionAndRecall(ms, c, i, &pr, &rc);
      CheckCurve(pr, wp, "precision of matches");
      CheckCurve(rc, wr, "recall of matches");
    }
  }
}
HX_MAIN(Body)
