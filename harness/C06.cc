#include "matching.h"
template <typename R, typename H> static std::string ShowR(const std::vector<Match<R, H>> &v) {
  std::string s = "[";
  for (auto &m : v) {
    s += "(";
    s += m.HasRef() ? Show(m.GetRef()) : "-";
    s += m.HasHyp() ? " #" + hx::Str(m.GetHyp().Score()) : " -";
    s += ") ";
  }
  return s + "]";
}
template <typename R, typename H> static void Go() {
  typedef Match<R, H> Mt;
  Rounds<R, H>([](const Round<R, H> &r, Table<R, H> &sc, const std::vector<Mt> &res, const std::vector<Mt> &rep) {
    std::vector<R> free;
    for (auto &x : r.refs) if (std::find(free.begin(), free.end(), x) == free.end()) free.push_back(x);
    std::vector<Mt> want, wrep;
    for (size_t k = 0; k < r.hyps.size(); ++k) {
      size_t accepted = 0;
      for (auto &c : r.cands[k]) {
        auto e = sc(c, r.hyps[k]);
        if (!(e.FP() < 1)) continue;
        ++accepted;
        auto it = std::find(free.begin(), free.end(), c);
        if (it != free.end()) {
          want.push_back(Mt(c, r.hyps[k], e));
          free.erase(it);
          break;
        }
        wrep.push_back(Mt(c, r.hyps[k], e));
      }
      if (!accepted) want.push_back(Mt::MakeFalsePositive(r.hyps[k]));
    }
    std::vector<Mt> got;
    for (auto &m : res) if (m.HasHyp()) got.push_back(m);
    if (!(got == want)) hx::Fail("assignment: got " + ShowR<R, H>(got) + ", expected " + ShowR<R, H>(want));
    if (!(rep == wrep)) hx::Fail("repeated matches: got " + ShowR<R, H>(rep) + ", expected " + ShowR<R, H>(wrep));
  });
}
static void Body() {
  while (hx::TimeLeft()) { Go<Ref, Hyp>(); Go<IRef, IHyp>(); }
}
HX_MAIN(Body)
