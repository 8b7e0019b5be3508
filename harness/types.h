#ifndef KWSV_HARNESS_TYPES_H_
#define KWSV_HARNESS_TYPES_H_
#include "common.h"
#include "core/Assessment.h"
#include "core/Bootstrapping.h"
#include "core/BoundingBox.h"
#include "core/DocumentBoundingBox.h"
#include "core/Event.h"
#include "core/Match.h"
#include "core/MatchError.h"
#include "core/MatchErrorCounts.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "core/Statistic.h"
using namespace kws::core;
typedef DocumentBoundingBox<uint32_t> DBox;
typedef ShapedEvent<std::string, DBox> Ref;
typedef ScoredEvent<Ref> Hyp;
typedef Event<int32_t, int32_t> IRef;
typedef ScoredEvent<IRef> IHyp;
typedef Match<Ref, Hyp> M;
typedef Match<IRef, IHyp> IM;
typedef std::vector<M> Ms;
typedef std::vector<IM> IMs;

static IHyp MkIHyp(int q, int l, float s) { return IHyp(q, l, s); }

// a random match over the integer events
static IM RandIM(int nq, const std::vector<float> &scores, bool soft) {
  int q = (int)hx::Below(nq), k = (int)hx::Below(10);
  int l = (int)hx::Below(50);
  if (k < 3) return IM::MakeFalsePositive(IHyp(q, l, hx::Pick(scores)));
  if (k < 5) return IM::MakeFalseNegative(IRef(q, l));
  if (soft) {
    static const std::vector<float> e = {0.f, 0.25f, 0.5f, 0.75f, 1.f};
    return IM(IRef(q, l), IHyp(q, l, hx::Pick(scores)), MatchError(hx::Pick(e), hx::Pick(e)));
  }
  return IM(IRef(q, l), IHyp(q, l, hx::Pick(scores)), MatchError(0.f, 0.f));
}
static std::vector<float> Scores() { return {-2.5f, -1.f, -0.25f, 0.f, 0.25f, 0.5f, 1.f, 3.f, 0.50000006f, 1e-7f, 1.25e-7f, 16777216.f, 16777218.f}; }

static IMs RandIMs(size_t n, int nq, bool soft) {
  IMs r;
  for (size_t i = 0; i < n; ++i) r.push_back(RandIM(nq, Scores(), soft));
  return r;
}
static std::string Show(const IM &m) {
  std::ostringstream o;
  o << "{";
  if (m.HasRef()) o << "ref(" << m.GetRef().Query() << "," << m.GetRef().Location() << ") ";
  if (m.HasHyp())
    o << "hyp(" << m.GetHyp().Query() << "," << m.GetHyp().Location() << ";" << m.GetHyp().Score()
      << ") ";
  o << "fp=" << m.GetError().FP() << " fn=" << m.GetError().FN() << "}";
  return o.str();
}
template <typename T> static std::string ShowV(const std::vector<T> &v);
static std::string ShowX(const IM &m) { return Show(m); }
static std::string ShowX(double d) { return hx::Str(d); }
static std::string ShowX(const std::string &s) { return "\"" + s + "\""; }
static std::string ShowX(const MatchErrorCounts &e) { return hx::Str(e); }
static std::string ShowX(const MatchError &e) { return hx::Str(e); }
template <typename T> static std::string ShowX(const std::vector<T> &v) { return ShowV(v); }
template <typename T> static std::string ShowV(const std::vector<T> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + ShowX(v[i]);
  return s + "]";
}
#endif
