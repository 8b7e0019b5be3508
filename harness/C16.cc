#include "types.h"
typedef std::vector<int> C;
// a sampler whose samples are known
struct Known {
  std::vector<double> *values;
  size_t calls;
  std::vector<const void *> seen;
  void operator()(const C &orig, C *out) {
    if (!out->empty()) bad = true;
    if (orig.size() != 1) bad = true;
    *out = C{(int)++calls};
  }
  bool bad = false;
};
static void One(const std::vector<double> &vals, double obs, double alpha) {
  size_t n = vals.size(), evals = 0, observed = 0;
  hx::Case([&] { return "observed " + hx::Str(obs) + " samples " + ShowV(vals) + " alpha " + hx::Str(alpha); }, n > 1);
  Known s;
  s.calls = 0;
  bool order = true;
  auto stat = [&](const C &c) -> double {
    if (c[0] == 0) { ++observed; return obs; }
    ++evals;
    order = order && (size_t)c[0] == evals;
    return vals[(size_t)c[0] - 1];
  };
  double lo = -77, hi = -78;
  C orig{0};
  double v = ComputePercentileBootstrapCI(orig, n, alpha, stat, &s, &lo, &hi);
  hx::Check(orig == C{0}, "the original is modified");
  hx::CheckEq(s.calls, n, "samples drawn");
  hx::CheckEq(evals, n, "samples evaluated");
  hx::Check(order, "a sample is evaluated more than once or not at all");
  hx::Check(!s.bad, "samples are not drawn afresh from the original");
  hx::CheckEq(v, obs, "returned statistic");
  std::vector<double> d;
  for (double x : vals) d.push_back(x - obs);
  for (size_t i = 0; i < d.size(); ++i)
    for (size_t j = d.size() - 1; j > i; --j) if (d[j] < d[j - 1]) std::swap(d[j], d[j - 1]);
  double wl = obs, wh = obs;
  if (n) {
    auto at = [&](double q) { size_t i = (size_t)(q * (double)n); return d[i < n ? i : n - 1]; };
    wl = obs - at(1 - alpha / 2);
    wh = obs - at(alpha / 2);
  }
  hx::CheckEq(lo, wl, "lower bound");
  hx::CheckEq(hi, wh, "upper bound");
  hx::Check(lo <= hi, "lower bound above the upper one");
}
static void Seeded(size_t reps, size_t seed, double alpha) {
  std::vector<IMs> g;
  size_t k = hx::Below(5);
  for (size_t i = 0; i < k; ++i) g.push_back(RandIMs(hx::Below(6), 3, true));
  hx::Case([&] { return "seed " + hx::Str(seed) + " repetitions " + hx::Str(reps) + " alpha " + hx::Str(alpha) + " " + ShowV(g); }, reps > 1);
  size_t calls = 0;
  auto stat = [&](const std::vector<IMs> &x) -> double {
    ++calls;
    double s = 0;
    for (auto &y : x) for (auto &m : y) s += m.GetError().FP() - .5 * m.GetError().FN() + .01 * (m.HasHyp() ? m.GetHyp().Location() : 3);
    return s;
  };
  double lo, hi, lo2, hi2;
  std::vector<IMs> copy = g;
  double v = ComputePercentileBootstrapCI(copy, reps, alpha, seed, stat, &lo, &hi);
  hx::CheckEq(calls, reps + 1, "evaluations of the statistic");
  hx::Check(copy == g, "the original is modified");
  MatchesByQuerySampler<IRef, IHyp> s(seed);
  double v2 = ComputePercentileBootstrapCI(g, reps, alpha, stat, &s, &lo2, &hi2);
  hx::Check(v == v2 && lo == lo2 && hi == hi2, "the seeded form differs from a sampler with that seed");
  hx::Check(v == stat(g), "returned statistic");
  hx::Check(lo <= hi, "lower bound above the upper one");
  // the same by hand
  MatchesByQuerySampler<IRef, IHyp> t(seed);
  std::vector<double> d;
  for (size_t r = 0; r < reps; ++r) { std::vector<IMs> x; t(g, &x); d.push_back(stat(x) - v); }
  std::sort(d.begin(), d.end());
  if (reps) {
    auto at = [&](double q) { size_t i = (size_t)(q * (double)reps); return d[i < reps ? i : reps - 1]; };
    hx::CheckNear(lo, v - at(1 - alpha / 2), "lower bound of the seeded form");
    hx::CheckNear(hi, v - at(alpha / 2), "upper bound of the seeded form");
  } else { hx::CheckEq(lo, v, "lower bound"); hx::CheckEq(hi, v, "upper bound"); }
}
static void Body() {
  static const std::vector<double> as = {0, 1, .5, .25, .125, .0625, .75, .875, 1. / 1024};
  for (size_t n = 0; n < 12; ++n)
    for (double a : as) {
      std::vector<double> v;
      for (size_t i = 0; i < n; ++i) v.push_back((double)hx::In(-8, 8) / 8);
      One(v, (double)hx::In(-4, 4) / 4, a);
    }
  while (hx::TimeLeft()) {
    std::vector<double> v;
    size_t n = hx::Coin(1, 4) ? hx::Below(200) : hx::Below(20);
    for (size_t i = 0; i < n; ++i) v.push_back((double)hx::In(-64, 64) / 32);
    One(v, (double)hx::In(-64, 64) / 32, hx::Pick(as));
    Seeded(hx::Below(12), hx::Below(100000), hx::Pick(as));
  }
}
HX_MAIN(Body)
