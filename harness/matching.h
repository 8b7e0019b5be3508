#ifndef KWSV_HARNESS_MATCHING_H_
#define KWSV_HARNESS_MATCHING_H_
#include "types.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/EventSet.h"
#include "matcher/SimpleMatcher.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/Scorer.h"
using kws::matcher::SimpleMatcher;
using kws::scorer::Scorer;
static std::string Show(const Ref &r) {
  auto &l = r.Location();
  std::ostringstream o;
  o << r.Query() << "@" << l.document << "(" << l.x << "," << l.y << "," << l.w << "," << l.h << ")";
  return o.str();
}
static std::string Show(const IRef &r) { return hx::Str(r.Query()) + "@" + hx::Str(r.Location()); }
static Ref Rand(const Ref *, int wide) {
  static const std::vector<std::string> qs = {"a", "b"}, ds = {"d", "e"};
  return Ref(hx::Coin(3, 4) ? "a" : hx::Pick(qs), DBox(hx::Coin(3, 4) ? "d" : "e", hx::Below(wide), hx::Below(wide), 1 + hx::Below(wide), 1 + hx::Below(wide)));
}
static IRef Rand(const IRef *, int wide) { return IRef((int)hx::Below(2), (int)hx::Below(wide)); }
// a table of errors, decided by the scores of the hypotheses and the references
template <typename R, typename H> struct Table : Scorer<R, H> {
  std::vector<R> refs;
  std::vector<std::vector<MatchError>> err;   // by reference, by hypothesis number (the score)
  MatchError operator()(const R &r, const H &h) override {
    for (size_t i = 0; i < refs.size(); ++i)
      if (refs[i] == r) return err[i][(size_t)h.Score() % 64];
    return MatchError(0.f, 0.f);   // a reference that was not given
  }
};
// an index that retrieves what it is told to
template <typename R> struct Told : EventSet<R> {
  typedef EventSet<R> B;
  const std::vector<std::vector<R>> *lists;
  mutable size_t next = 0;
  std::list<R> Next() const {
    std::list<R> r;
    if (next < lists->size()) r.assign((*lists)[next].begin(), (*lists)[next].end());
    ++next;
    return r;
  }
};
struct ToldBox : Told<Ref> {
  std::list<Ref> FindOverlapping(const ShapedEvent<std::string, DBox> &) const override { return Next(); }
};
struct ToldInt : Told<IRef> {
  std::list<IRef> FindOverlapping(const Event<int32_t, int32_t> &) const override { return Next(); }
};
inline ToldBox *MkTold(const Ref *) { return new ToldBox; }
inline ToldInt *MkTold(const IRef *) { return new ToldInt; }

template <typename R, typename H> struct Round {
  std::vector<R> refs;
  std::vector<H> hyps;
  std::vector<std::vector<R>> cands;   // by hypothesis, in retrieval order
  std::string Text() const {
    std::string s = "refs";
    for (auto &r : refs) s += " " + Show(r);
    s += " hyps";
    for (auto &h : hyps) s += " " + Show((const R &)h) + "#" + hx::Str(h.Score());
    s += " candidates";
    for (auto &c : cands) { s += " ["; for (auto &r : c) s += Show(r) + " "; s += "]"; }
    return s;
  }
};
// run rounds on one matcher;  check(round, scorer, result, repeated)
template <typename R, typename H, typename F> static void Rounds(F check) {
  typedef SimpleMatcher<R, H> SMt;
  auto sc = std::make_shared<Table<R, H>>();
  bool told = hx::Coin(1, 2);
  auto *idx = told ? MkTold((R *)nullptr) : nullptr;
  std::unique_ptr<SMt> m(told ? new SMt(sc.get(), idx) : new SMt(sc.get()));
  EventSet<R> probe;
  size_t rounds = 1 + hx::Below(3);
  std::vector<std::string> log;
  static const std::vector<MatchError> errs = {MatchError(0, 0), MatchError(.5f, .25f), MatchError(.75f, 1.f), MatchError(0, .5f), MatchError(1, 1), MatchError(1, 0), MatchError(1.5f, 0)};
  int wide = hx::Coin(1, 4) ? 12 : 4;
  for (size_t t = 0; t < rounds; ++t) {
    Round<R, H> r;
    size_t nr = hx::Below(hx::Coin(1, 6) ? 16 : 5), nh = hx::Below(hx::Coin(1, 6) ? 16 : 6);
    for (size_t i = 0; i < nr; ++i) r.refs.push_back(i && hx::Coin(1, 6) ? r.refs[hx::Below(i)] : Rand((R *)nullptr, wide));
    for (size_t i = 0; i < nh; ++i) {
      R e = nr && hx::Coin(1, 2) ? r.refs[hx::Below(nr)] : Rand((R *)nullptr, wide);
      r.hyps.push_back(H(e.Query(), e.Location(), (float)i));
    }
    sc->refs = r.refs;
    sc->err.assign(nr, std::vector<MatchError>(64));
    for (auto &v : sc->err) for (auto &e : v) e = hx::Pick(errs);
    if (hx::Coin(1, 3)) for (auto &v : sc->err) for (auto &e : v) e = MatchError(0, 0);
    probe.Clear();
    for (auto &x : r.refs) probe.Insert(x);
    for (auto &h : r.hyps) {
      std::vector<R> c;
      if (told) {
        size_t k = hx::Below(5);
        for (size_t i = 0; i < k; ++i) c.push_back(nr && hx::Coin(7, 8) ? r.refs[hx::Below(nr)] : Rand((R *)nullptr, wide));
      } else {
        auto l = probe.FindOverlapping(h);
        c.assign(l.begin(), l.end());
      }
      r.cands.push_back(c);
    }
    if (told) { idx->lists = &r.cands; idx->next = 0; }
    log.push_back(r.Text());
    hx::Case([&] { std::string s; for (auto &l : log) s += "call: " + l + "; "; return s; }, nr > 0 && nh > 1);
    auto res = m->Match(r.refs, r.hyps);
    auto rep = m->GetRepeatedMatches();
    if (!told) {
      SMt other(sc.get());
      hx::Check(other.Match(r.refs, r.hyps) == res, "the result depends on earlier calls");
      hx::Check(other.GetRepeatedMatches() == rep, "the repeated matches depend on earlier calls");
    }
    check(r, *sc, res, rep);
  }
}
#endif
