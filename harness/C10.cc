#include "oracle.h"
template <typename E> static void FromErrors(const std::vector<E> &es) {
  auto p = Plain4(es);
  for (int m = 0; m < 4; ++m) {
    bool interp = m & 1, trap = m & 2;
    hx::Case([&] { return std::string(interp ? "interpolated " : "plain ") + (trap ? "trapezoid " : "") + ShowV(es); }, es.size() > 1);
    std::vector<double> pr, rc;
    ComputePrecisionAndRecall(es, interp, &pr, &rc);
    double a = ComputeAP(pr, rc, trap);
    hx::CheckNear(a, orc::Area(pr, rc, trap), "area under the curve");
    hx::Check(a >= -1e-12 && a <= 1 + 1e-12, "average precision leaves [0,1]: " + hx::Str(a));
    double b = ComputeAP<double>(es, pr, trap);
    hx::CheckNear(b, orc::ErrAP(p, pr, trap), "average precision from errors");
    double tp = 0, ntp = 0;
    for (auto &e : p) { tp += (double)e.nr - e.fn; ntp += (double)e.nh - e.fp; }
    if (orc::Total(p) && tp == 0) hx::CheckNear(a, 0, "average precision without true positives");
    if (ntp == 0) hx::CheckNear(b, 0, "average precision from errors without true positives");
    bool ones = !pr.empty();
    for (double x : pr) ones &= x == 1;
    if (ones && rc.back() == 1) hx::CheckNear(a, 1, "average precision of a perfect ranking");
  }
}
static void Body() {
  ShortErrorLists(5, [](const std::vector<MatchError> &v) { FromErrors(v); });
  while (hx::TimeLeft()) {
    FromErrors(RandErrors(Len(60)));
    FromErrors(RandCounts(Len(40), 4));
    // free curves
    size_t n = Len(30);
    std::vector<double> pr, rc;
    double r = 0;
    for (size_t i = 0; i < n; ++i) {
      pr.push_back(hx::Below(9) / 8.0);
      r = hx::Coin() ? r : r + (1 - r) * (double)hx::Below(9) / 8.0;
      rc.push_back(r);
    }
    bool trap = hx::Coin();
    hx::Case([&] { return std::string(trap ? "trapezoid " : "") + "pr=" + ShowV(pr) + " rc=" + ShowV(rc); }, n > 1);
    double a = ComputeAP(pr, rc, trap);
    hx::CheckNear(a, orc::Area(pr, rc, trap), "area under a curve");
    hx::Check(a >= -1e-12 && a <= 1 + 1e-12, "average precision leaves [0,1]: " + hx::Str(a));
  }
}
HX_MAIN(Body)
