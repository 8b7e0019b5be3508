#include "types.h"
template <typename G> static std::string Desc(const char *w, size_t seed, const G &g) {
  return std::string(w) + " seed " + hx::Str(seed) + " " + ShowV(g);
}
// every record distinct, so that an element tells where it comes from
static IM Tag(int g, int i) {
  if (i % 3 == 0) return IM::MakeFalseNegative(IRef(g, i));
  if (i % 3 == 1) return IM::MakeFalsePositive(IHyp(g, i, .5f));
  return IM(IRef(g, i), IHyp(g, i, .25f), MatchError(0, 0));
}
static void List(size_t n, size_t seed) {
  IMs o;
  for (size_t i = 0; i < n; ++i) o.push_back(Tag(0, (int)i));
  hx::Case([&] { return Desc("list sample", seed, o); }, n > 1);
  MatchesSampler<IRef, IHyp> s(seed);
  IMs copy = o, got = o;
  if (hx::Coin()) got.resize(hx::Below(4));
  for (int r = 0; r < 3; ++r) {
    s(copy, &got);
    hx::Check(copy == o, "the original is modified");
    hx::CheckEq(got.size(), n, "size of the sample");
    for (auto &m : got) hx::Check(std::find(o.begin(), o.end(), m) != o.end(), "a sampled match is not one of the list");
  }
}
static void Grouped(size_t n, size_t seed) {
  std::vector<IMs> o;
  for (size_t g = 0; g < n; ++g) {
    o.emplace_back();
    size_t k = hx::Coin(1, 5) ? 0 : hx::Below(6);
    for (size_t i = 0; i < k; ++i) o.back().push_back(Tag((int)g, (int)i));
  }
  hx::Case([&] { return Desc("group sample", seed, o); }, n > 1);
  MatchesByQuerySampler<IRef, IHyp> s(seed);
  std::vector<IMs> copy = o, got;
  if (hx::Coin() && n) got.assign(hx::Below(7), o[0]);
  for (int r = 0; r < 3; ++r) {
    s(copy, &got);
    hx::Check(copy == o, "the original is modified");
    hx::CheckEq(got.size(), n, "number of sampled groups");
    for (auto &x : got) {
      bool any = false;
      for (auto &g : o) {
        bool all = x.size() == g.size();
        for (auto &m : x) all = all && std::find(g.begin(), g.end(), m) != g.end();
        any = any || all;
      }
      hx::Check(any, "a sampled group is not drawn from one original group");
    }
  }
}
// every position can be drawn
static void Reach() {
  IMs o;
  for (int i = 0; i < 5; ++i) o.push_back(Tag(0, i));
  hx::Case([] { return std::string("400 samples of 5 matches"); });
  MatchesSampler<IRef, IHyp> s(7);
  MatchesByQuerySampler<IRef, IHyp> q(7);
  std::vector<IMs> og;
  for (int g = 0; g < 4; ++g) { og.emplace_back(); for (int i = 0; i < 3; ++i) og.back().push_back(Tag(g, i)); }
  std::set<int> l, gq;
  for (int r = 0; r < 400; ++r) {
    IMs x;
    s(o, &x);
    for (auto &m : x) l.insert(m.HasRef() ? m.GetRef().Location() : m.GetHyp().Location());
    std::vector<IMs> y;
    q(og, &y);
    for (auto &g : y) for (auto &m : g) gq.insert((m.HasRef() ? m.GetRef().Query() * 10 + m.GetRef().Location() : m.GetHyp().Query() * 10 + m.GetHyp().Location()));
  }
  hx::CheckEq(l.size(), o.size(), "positions of the list ever drawn");
  hx::CheckEq(gq.size(), (size_t)12, "positions of the groups ever drawn");
}
static void Body() {
  Reach();
  for (size_t n = 0; n < 6; ++n) { List(n, 1); Grouped(n, 1); }
  while (hx::TimeLeft()) { List(hx::Below(20), hx::Below(1000000)); Grouped(hx::Below(9), hx::Below(1000000)); }
}
HX_MAIN(Body)
