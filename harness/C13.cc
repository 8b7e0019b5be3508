#include "types.h"
template <typename Match, typename Q, typename Map>
static void One(const std::vector<Match> &ms, const Map &map, std::function<Q(const Match &)> query,
                std::function<std::string()> show) {
  hx::Case(show, ms.size() > 1);
  std::vector<Q> names;
  std::vector<std::vector<size_t>> want;
  for (size_t i = 0; i < ms.size(); ++i) {
    Q q = query(ms[i]);
    for (const auto &kv : map)
      if (kv.first == query(ms[i])) { q = kv.second; break; }
    size_t g = 0;
    while (g < names.size() && !(names[g] == q)) ++g;
    if (g == names.size()) { names.push_back(q); want.emplace_back(); }
    want[g].push_back(i);
  }
  std::vector<std::vector<Match>> got;
  int pre = (int)hx::Below(3);
  for (int i = 0; i < pre && !ms.empty(); ++i) got.push_back(std::vector<Match>(hx::Below(3), ms[0]));
  std::vector<Match> copy = ms;
  GroupMatchesByQueryGroup(copy, map, &got);
  hx::Check(copy == ms, "the matches are modified");
  hx::CheckEq(got.size(), want.size(), "number of groups");
  for (size_t g = 0; g < want.size(); ++g) {
    hx::CheckEq(got[g].size(), want[g].size(), "size of a group");
    for (size_t j = 0; j < want[g].size(); ++j)
      hx::Check(got[g][j] == ms[want[g][j]], "wrong match in a group");
  }
}
static void Ints() {
  IMs ms;
  size_t n = hx::Below(14);
  int nq = (int)hx::In(1, 6);
  for (size_t i = 0; i < n; ++i) {
    IM m = RandIM(nq, Scores(), true);
    if (m.HasRef() && m.HasHyp() && hx::Coin())
      m.SetHyp(IHyp((int)hx::Below(nq), 1, .5f));
    ms.push_back(m);
  }
  std::map<int32_t, int32_t> mp;
  for (int q = 0; q < nq; ++q)
    if (hx::Coin()) mp[q] = (int)hx::In(-1, nq);
  std::function<int32_t(const IM &)> qf = [](const IM &m) {
    return m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query();
  };
  auto show = [&] {
    std::string s = ShowV(ms) + " map";
    for (auto &kv : mp) s += " " + hx::Str(kv.first) + "->" + hx::Str(kv.second);
    return s;
  };
  One<IM, int32_t>(ms, mp, qf, show);
  std::unordered_map<int32_t, int32_t> um(mp.begin(), mp.end());
  One<IM, int32_t>(ms, um, qf, show);
}
static void Strings() {
  static const std::vector<std::string> qs = {"a", "b", "A", "ab", "", "b ", "zz"};
  Ms ms;
  size_t n = hx::Below(12);
  for (size_t i = 0; i < n; ++i) {
    auto q = hx::Pick(qs), q2 = hx::Coin() ? q : hx::Pick(qs);
    DBox b("d", (uint32_t)i, 0, 1, 1);
    int k = (int)hx::Below(3);
    if (k == 0) ms.push_back(M::MakeFalsePositive(Hyp(q, b, .5f)));
    else if (k == 1) ms.push_back(M::MakeFalseNegative(Ref(q, b)));
    else ms.push_back(M(Ref(q, b), Hyp(q2, b, .25f), MatchError(0, 0)));
  }
  std::unordered_map<std::string, std::string> mp;
  for (auto &q : qs)
    if (hx::Coin()) mp[q] = hx::Coin() ? hx::Pick(qs) : "G" + q;
  One<M, std::string>(ms, mp, [](const M &m) {
    return m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query();
  }, [&] {
    std::string s = "queries";
    for (auto &m : ms) s += " '" + (m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query()) + "'";
    s += " map";
    for (auto &kv : mp) s += " '" + kv.first + "'->'" + kv.second + "'";
    return s;
  });
}
static void Body() {
  while (hx::TimeLeft()) { Ints(); Strings(); }
}
HX_MAIN(Body)
