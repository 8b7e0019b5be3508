#include "oracle.h"
typedef std::vector<IMs> Groups;
static Groups RandGroups() {
  Groups g(hx::Below(5));
  for (auto &x : g) x = RandIMs(hx::Coin(1, 5) ? hx::Below(25) : hx::Below(6), 3, hx::Coin());
  return g;
}
// distinct scores make the ranking unique, so the expected value does not depend on ties
static void Distinct(Groups *g) {
  int k = 0;
  for (auto &x : *g)
    for (auto &m : x)
      if (m.HasHyp()) {
        auto h = m.GetHyp();
        m.SetHyp(MkIHyp(h.Query(), h.Location(), (float)((k++ * 37) % 101) / 64 - .7f));
      }
}
static bool Before(const IM &a, const IM &b) {
  if (a.HasHyp() && b.HasHyp()) return a.GetHyp().Score() > b.GetHyp().Score();
  return a.HasHyp() && !b.HasHyp();
}
static IMs Ranked(IMs ms) {
  for (size_t i = 0; i < ms.size(); ++i)
    for (size_t j = ms.size() - 1; j > i; --j)
      if (Before(ms[j], ms[j - 1])) { IM t(ms[j]); ms[j] = ms[j - 1]; ms[j - 1] = t; }
  return ms;
}
static void Sorting(const IMs &ms) {
  hx::Case([&] { return "sort " + ShowV(ms); }, ms.size() > 1);
  IMs s = ms;
  SortMatchesDecreasingScore(&s);
  hx::CheckEq(s.size(), ms.size(), "size after sorting");
  for (size_t i = 1; i < s.size(); ++i) hx::Check(!Before(s[i], s[i - 1]), "not ordered by decreasing score");
  std::vector<bool> used(ms.size());
  for (auto &m : s) {
    bool f = false;
    for (size_t i = 0; i < ms.size() && !f; ++i)
      if (!used[i] && ms[i] == m) used[i] = f = true;
    hx::Check(f, "sorting invents a record");
  }
}
static void Scores(const Groups &g) {
  IMs flat;
  for (auto &x : g) for (auto &m : x) flat.push_back(m);
  for (int o = 0; o < 16; ++o) {
    bool c = o & 1, i = o & 2, t = o & 4, s = o & 8;
    hx::Case([&] { return std::string(c ? "collapse " : "") + (i ? "interpolate " : "") + (t ? "trapezoid " : "") + (s ? "sort " : "") + ShowV(g); }, flat.size() > 1);
    IMs all = s ? Ranked(flat) : flat;
    double wa = orc::AP(all, c, i, t), wn = orc::Ndcg(orc::Errs(all, c)), ma = 0, mn = 0;
    for (auto &x : g) {
      IMs y = s ? Ranked(x) : x;
      ma += orc::AP(y, c, i, t) / g.size();
      mn += orc::Ndcg(orc::Errs(y, c)) / g.size();
    }
    Groups copy = g;
    hx::CheckNear(ComputeGlobalAP(copy, c, i, t, s), wa, "global AP");
    hx::CheckNear(ComputeMeanAP(copy, c, i, t, s), ma, "mean AP");
    hx::CheckNear(ComputeGlobalNDCG(copy, c, s), wn, "global NDCG", 1e-6);
    hx::CheckNear(ComputeMeanNDCG(copy, c, s), mn, "mean NDCG", 1e-6);
    GlobalAP<IM> ga(c, i, t);
    MeanAP<IM> me(c, i, t);
    GlobalNDCG<IM> gn(c);
    MeanNDCG<IM> men(c);
    hx::CheckNear(ga(copy, s), wa, "GlobalAP(groups)");
    hx::CheckNear(me(copy, s), ma, "MeanAP(groups)");
    hx::CheckNear(gn(copy, s), wn, "GlobalNDCG(groups)");
    hx::CheckNear(men(copy, s), mn, "MeanNDCG(groups)");
    if (!s) {
      hx::CheckNear(ComputeGlobalAP(flat, c, i, t), wa, "global AP of a list");
      hx::CheckNear(ComputeGlobalNDCG(flat, c), wn, "global NDCG of a list", 1e-6);
      hx::CheckNear(ga(flat), wa, "GlobalAP(list)");
      hx::CheckNear(gn(flat), wn, "GlobalNDCG(list)");
    }
    hx::Check(copy.size() == g.size(), "groups modified");
    for (size_t k = 0; k < g.size(); ++k) hx::Check(copy[k] == g[k], "groups modified");
  }
}
static void Body() {
  while (hx::TimeLeft()) {
    Groups g = RandGroups();
    Sorting(RandIMs(Len(40), 3, true));
    Distinct(&g);
    Scores(g);
  }
}
HX_MAIN(Body)
