#include "oracle.h"
static void Same(const MatchError &e, const orc::E4 &w, const char *what) {
  hx::Check(e.FP() == (float)w.fp && e.FN() == (float)w.fn && e.NH() == w.nh && e.NR() == w.nr,
            std::string(what) + ": got " + hx::Str(e));
}
static void One(const IMs &ms) {
  bool runs = false;
  for (size_t i = 1; i < ms.size(); ++i) runs |= orc::Key(ms[i]) == orc::Key(ms[i - 1]);
  hx::Case([&] { return ShowV(ms); }, runs);
  auto es = GetMatchErrors(ms);
  auto we = orc::Errs(ms, false);
  hx::CheckEq(es.size(), we.size(), "number of entries without collapsing");
  for (size_t i = 0; i < es.size(); ++i) Same(es[i], we[i], "entry without collapsing");
  auto cs = CollapseMatches(ms);
  auto wc = orc::Errs(ms, true);
  hx::CheckEq(cs.size(), wc.size(), "number of collapsed entries");
  for (size_t i = 0; i < cs.size(); ++i) Same(cs[i], wc[i], "collapsed entry");
  hx::CheckEq(NumTotalReferences(cs), orc::Total(we), "total references of collapsed entries");
  hx::CheckEq(NumTotalReferences(es), orc::Total(we), "total references");
}
static void Body() {
  static const std::vector<float> v = {-1.f, 0.f, 1e-7f, .25f, .5f, .999999f, 1.f, 1.5f, 3.f};
  for (float fp : v) for (float fn : v) {
    hx::Case([&] { return "error fp=" + hx::Str(fp) + " fn=" + hx::Str(fn); });
    Same(MatchError(fp, fn), orc::Of(MatchError(fp, fn)), "classification");
    MatchErrorCounts c((MatchError(fp, fn)));
    Same(c, orc::Of(MatchError(fp, fn)), "counts of an error");
  }
  for (int i = 0; i < 3000; ++i) {
    auto c = RandCounts(2, 5);
    auto e = RandErrors(1)[0];
    hx::Case([&] { return ShowV(c) + " " + ShowX(e); });
    auto p = Plain4(c);
    auto q = orc::Of(e);
    Same(c[0] + c[1], {p[0].fp + p[1].fp, p[0].fn + p[1].fn, p[0].nh + p[1].nh, p[0].nr + p[1].nr},
         "sum of counts");
    MatchErrorCounts d = c[0];
    d += e;
    Same(d, {p[0].fp + q.fp, p[0].fn + q.fn, p[0].nh + q.nh, p[0].nr + q.nr}, "counts += error");
    MatchErrorCounts f = c[0];
    f += c[1];
    Same(f, {p[0].fp + p[1].fp, p[0].fn + p[1].fn, p[0].nh + p[1].nh, p[0].nr + p[1].nr},
         "counts += counts");
    Same(c[0], p[0], "operand changed");
    hx::CheckEq(c[0] == c[1], p[0].fp == p[1].fp && p[0].fn == p[1].fn && p[0].nh == p[1].nh && p[0].nr == p[1].nr, "counts ==");
    hx::CheckEq(c[0] != c[1], !(c[0] == c[1]), "counts !=");
  }
  while (hx::TimeLeft()) {
    size_t n = Len(40);
    IMs ms = RandIMs(n, 3, hx::Coin());
    // few scores: many runs
    if (hx::Coin())
      for (auto &m : ms)
        if (m.HasHyp()) { auto h = m.GetHyp(); m.SetHyp(MkIHyp(h.Query(), h.Location(), hx::Coin() ? .5f : -1.f)); }
    if (hx::Coin(1, 3)) SortMatchesDecreasingScore(&ms);
    One(ms);
  }
}
HX_MAIN(Body)
