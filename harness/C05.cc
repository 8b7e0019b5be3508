#include "matching.h"
template <typename R, typename H> static void Go() {
  Rounds<R, H>([](const Round<R, H> &r, Table<R, H> &sc, const std::vector<Match<R, H>> &res, const std::vector<Match<R, H>> &) {
    std::vector<int> seen(r.refs.size(), 0);
    size_t hypsn = 0;
    long last = -1;
    bool tail = false;
    const R *prev = nullptr;
    for (auto &m : res) {
      if (m.HasRef()) {
        size_t at = r.refs.size();
        for (size_t i = r.refs.size(); i-- > 0;) if (r.refs[i] == m.GetRef()) at = i;
        hx::Check(at < r.refs.size(), "a record has a reference that was not given");
        hx::Check(++seen[at] == 1, "a reference has two records");
      }
      if (m.HasHyp()) {
        hx::Check(!tail, "a hypothesis record after a missed reference");
        ++hypsn;
        long k = (long)m.GetHyp().Score();
        hx::Check(k > last, "records are not in the order of the hypotheses, or one has two");
        last = k;
        hx::Check(k < (long)r.hyps.size() && r.hyps[k] == m.GetHyp(), "a record has a hypothesis that was not given");
        if (m.HasRef()) {
          auto e = sc(m.GetRef(), m.GetHyp());
          hx::Check(e.FP() == m.GetError().FP() && e.FN() == m.GetError().FN(), "the error of a pair is not the reported one");
          hx::Check(e.FP() < 1, "a pair that was not accepted");
        } else
          hx::Check(m.GetError().FP() == 1 && m.GetError().FN() == 0, "error of a false positive");
      } else {
        hx::Check(m.HasRef(), "empty record");
        hx::Check(m.GetError().FP() == 0 && m.GetError().FN() == 1, "error of a missed reference");
        if (prev) hx::Check(*prev < m.GetRef(), "missed references are not increasing");
        prev = &m.GetRef();
        tail = true;
      }
    }
    for (size_t i = 0; i < r.refs.size(); ++i) {
      bool first = true;
      for (size_t j = 0; j < i; ++j) first = first && !(r.refs[j] == r.refs[i]);
      if (first) hx::Check(seen[i] == 1, "a given reference has no record: " + Show(r.refs[i]));
    }
    hx::Check(hypsn <= r.hyps.size(), "more hypothesis records than hypotheses");
  });
}
static void Body() {
  while (hx::TimeLeft()) { Go<Ref, Hyp>(); Go<IRef, IHyp>(); }
}
HX_MAIN(Body)
