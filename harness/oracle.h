#ifndef KWSV_HARNESS_ORACLE_H_
#define KWSV_HARNESS_ORACLE_H_
#include "types.h"
// independent reading of the definitions in properties.jsonl
namespace orc {
struct E4 {
  double fp, fn;
  unsigned long nh, nr;
};
typedef std::vector<E4> E4s;
typedef std::vector<double> Ds;
inline E4 Of(const MatchError &e) {
  bool missed = e.FP() <= 0 && e.FN() >= 1, spurious = e.FP() >= 1 && e.FN() <= 0;
  return {e.FP(), e.FN(), missed ? 0u : 1u, spurious ? 0u : 1u};
}
template <typename MT> double Key(const MT &m) {
  return m.HasHyp() ? (double)m.GetHyp().Score() : -HUGE_VAL;
}
template <typename MT> E4s Errs(const std::vector<MT> &ms, bool collapse) {
  E4s r;
  for (size_t i = 0; i < ms.size(); ++i) {
    E4 e = Of(ms[i].GetError());
    if (collapse && i > 0 && Key(ms[i]) == Key(ms[i - 1])) {
      E4 &b = r.back();
      b.fp += e.fp; b.fn += e.fn; b.nh += e.nh; b.nr += e.nr;
    } else
      r.push_back(e);
  }
  return r;
}
inline unsigned long Total(const E4s &es) {
  unsigned long t = 0;
  for (auto &e : es) t += e.nr;
  return t;
}
inline void Curve(const E4s &es, bool interp, Ds *pr, Ds *rc) {
  pr->clear();
  rc->clear();
  for (size_t i = 0; i < es.size(); ++i) {
    double fp = 0, fn = 0, nh = 0, nr = 0;
    for (size_t j = 0; j <= i; ++j) { fp += es[j].fp; fn += es[j].fn; nh += es[j].nh; nr += es[j].nr; }
    pr->push_back(nh > 0 ? 1 - fp / nh : 1);
    rc->push_back(Total(es) > 0 ? (nr - fn) / Total(es) : 1);
  }
  if (interp) {
    Ds q = *pr;
    for (size_t i = 0; i < q.size(); ++i)
      for (size_t j = i; j < q.size(); ++j) (*pr)[i] = std::max((*pr)[i], q[j]);
  }
}
inline double Area(const Ds &pr, const Ds &rc, bool trap) {
  double s = 0;
  for (size_t i = 0; i < pr.size(); ++i)
    s += (rc[i] - (i ? rc[i - 1] : 0)) * (trap && i ? (pr[i] + pr[i - 1]) / 2 : pr[i]);
  return s;
}
inline double ErrAP(const E4s &es, const Ds &pr, bool trap) {
  double s = 0;
  for (size_t i = 0; i < pr.size(); ++i)
    s += ((double)es[i].nh - es[i].fp) * (trap && i ? (pr[i] + pr[i - 1]) / 2 : pr[i]);
  return Total(es) ? s / Total(es) : 0;
}
inline double Ndcg(const E4s &es) {
  unsigned long t = Total(es), rank = 0;
  if (!t) return 0;
  double g = 0, z = 0;
  for (auto &e : es)
    for (unsigned long j = 0; j < e.nh; ++j) {
      ++rank;
      g += (std::pow(2.0, 1 - e.fp / e.nh) - 1) / std::log2((double)rank + 1);
    }
  for (unsigned long j = 1; j <= t; ++j) z += 1 / std::log2((double)j + 1);
  return g / z;
}
template <typename MT> double AP(const std::vector<MT> &ms, bool c, bool i, bool t) {
  Ds pr, rc;
  Curve(Errs(ms, c), i, &pr, &rc);
  return Area(pr, rc, t);
}
// one score for both
template <typename MT> double Measure(const std::vector<MT> &ms, bool ndcg, bool c, bool i, bool t) {
  return ndcg ? Ndcg(Errs(ms, c)) : AP(ms, c, i, t);
}
}  // namespace orc

static void CheckCurve(const std::vector<double> &got, const std::vector<double> &want, const char *what) {
  hx::CheckEq(got.size(), want.size(), what);
  for (size_t i = 0; i < got.size(); ++i) hx::CheckNear(got[i], want[i], what);
}
// error lists with counts: bounded entries
static std::vector<MatchErrorCounts> RandCounts(size_t n, int maxc) {
  std::vector<MatchErrorCounts> v;
  for (size_t i = 0; i < n; ++i) {
    size_t nh = hx::Below(maxc + 1), nr = hx::Below(maxc + 1);
    float fp = nh ? (float)hx::Below(4 * nh + 1) / 4 : 0, fn = nr ? (float)hx::Below(4 * nr + 1) / 4 : 0;
    int k = (int)hx::Below(4);
    if (k == 0) fp = 0;
    if (k == 1) fp = (float)nh;
    v.push_back(MatchErrorCounts(fp, fn, nh, nr));
  }
  return v;
}
static std::vector<MatchError> RandErrors(size_t n) {
  static const std::vector<float> e = {0.f, 0.25f, 0.5f, 0.75f, 1.f};
  std::vector<MatchError> v;
  for (size_t i = 0; i < n; ++i) {
    switch (hx::Below(4)) {
      case 0: v.push_back(MatchError(1, 0)); break;
      case 1: v.push_back(MatchError(0, 1)); break;
      case 2: v.push_back(MatchError(0, 0)); break;
      default: v.push_back(MatchError(hx::Pick(e), hx::Pick(e)));
    }
  }
  return v;
}
inline orc::E4s Plain4(const std::vector<MatchErrorCounts> &v) {
  orc::E4s r;
  for (auto &e : v) r.push_back({e.FP(), e.FN(), e.NH(), e.NR()});
  return r;
}
inline orc::E4s Plain4(const std::vector<MatchError> &v) {
  orc::E4s r;
  for (auto &e : v) r.push_back(orc::Of(e));
  return r;
}
// all short lists over a few error kinds
template <typename F> void ShortErrorLists(size_t maxn, F f) {
  static const std::vector<MatchError> kinds = {MatchError(1, 0), MatchError(0, 1), MatchError(0, 0),
                                                MatchError(.5f, .5f)};
  for (size_t n = 0; n <= maxn; ++n) {
    size_t tot = 1;
    for (size_t i = 0; i < n; ++i) tot *= kinds.size();
    for (size_t c = 0; c < tot; ++c) {
      std::vector<MatchError> v;
      size_t x = c;
      for (size_t i = 0; i < n; ++i, x /= kinds.size()) v.push_back(kinds[x % kinds.size()]);
      f(v);
    }
  }
}
static size_t Len(size_t longest) { return hx::Below(8) ? hx::Below(9) : hx::Below(longest); }
#endif
