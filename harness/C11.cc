#include "oracle.h"
template <typename E> static void One(const std::vector<E> &es) {
  hx::Case([&] { return ShowV(es); }, es.size() > 1);
  auto p = Plain4(es);
  double g = ComputeNDCG<double>(es);
  hx::CheckNear(g, orc::Ndcg(p), "normalised discounted gain", 1e-6);
  double tp = 0;
  for (auto &e : p) tp += (double)e.nh - e.fp;
  if (tp <= (double)orc::Total(p)) hx::Check(g >= 0 && g <= 1 + 1e-6, "result leaves [0,1]: " + hx::Str(g));
}
static void Body() {
  ShortErrorLists(6, [](const std::vector<MatchError> &v) { One(v); });
  while (hx::TimeLeft()) {
    One(RandErrors(Len(60)));
    One(RandCounts(Len(40), 4));
    One(CollapseMatches(RandIMs(Len(30), 2, hx::Coin())));
    // perfect prefix, false positives behind it, references missing nowhere
    std::vector<MatchError> v(1 + hx::Below(9), MatchError(0, 0));
    for (size_t i = hx::Below(6); i > 0; --i) v.push_back(MatchError(1, 0));
    hx::Case([&] { return "perfect " + ShowV(v); });
    hx::CheckNear(ComputeNDCG<double>(v), 1, "gain of a perfect ranking");
  }
}
HX_MAIN(Body)
