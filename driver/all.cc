// Driver translation unit: makes clang instantiate the templates of /repo, so
// that their instantiated bodies can be extracted.  It contains no logic: the
// tools' own main functions and one use of everything else.
#include <cstdint>
#include <string>
#define main kws_main_icdar17
#include "tools/Icdar17KwsEval.cc"
#undef main
#define main kws_main_simple
#include "tools/SimpleKwsEval.cc"
#undef main
#include "core/EventSet.h"
#include "mapper/IdentityMapper.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"

namespace kwsv_driver {
using namespace kws;
typedef core::ShapedEvent<std::string, core::DocumentBoundingBox<uint32_t>> Ref;
typedef core::ScoredEvent<Ref> Hyp;
typedef core::Event<int32_t, int32_t> IRef;
typedef core::ScoredEvent<IRef> IHyp;
}  // namespace kwsv_driver

template struct kws::core::BoundingBox<uint32_t>;
template struct kws::core::BoundingBox<int32_t>;
template struct kws::core::BoundingBox<uint64_t>;
template struct kws::core::BoundingBox<double>;
template struct kws::core::DocumentBoundingBox<uint32_t>;
template struct kws::core::DocumentBoundingBox<int32_t>;
template struct kws::core::DocumentBoundingBox<double>;
template class kws::core::Event<int32_t, int32_t>;
template class kws::core::Event<std::string, std::string>;
template class kws::core::Event<std::string, kws::core::DocumentBoundingBox<uint32_t>>;
template class kws::core::ShapedEvent<std::string, kws::core::DocumentBoundingBox<uint32_t>>;
template class kws::core::ScoredEvent<kwsv_driver::Ref>;
template class kws::core::ScoredEvent<kwsv_driver::IRef>;
template class kws::core::Match<kwsv_driver::Ref, kwsv_driver::Hyp>;
template class kws::core::Match<kwsv_driver::IRef, kwsv_driver::IHyp>;
template class kws::core::EventSet<kwsv_driver::Ref>;
template class kws::core::EventSet<kwsv_driver::IRef>;
template class kws::scorer::IntersectionOverHypothesisAreaScorer<kwsv_driver::Ref, kwsv_driver::Hyp>;
template class kws::scorer::IntersectionOverUnionAreaScorer<kwsv_driver::Ref, kwsv_driver::Hyp>;
template class kws::scorer::SoftIntersectionOverHypothesisAreaScorer<kwsv_driver::Ref, kwsv_driver::Hyp>;
template class kws::scorer::TrivialScorer<kwsv_driver::IRef, kwsv_driver::IHyp>;
template class kws::matcher::SimpleMatcher<kwsv_driver::Ref, kwsv_driver::Hyp>;
template class kws::matcher::SimpleMatcher<kwsv_driver::IRef, kwsv_driver::IHyp>;
template class kws::core::MatchesSampler<kwsv_driver::Ref, kwsv_driver::Hyp>;
template class kws::core::MatchesByQuerySampler<kwsv_driver::Ref, kwsv_driver::Hyp>;
template class kws::mapper::StringToIntMapper<int32_t>;
template class kws::mapper::StringToIntMapper<uint8_t>;
template class kws::mapper::StringToIntMapper<int8_t>;
template class kws::mapper::StringToIntMapper<uint64_t>;
template class kws::mapper::StringToIntMapper<int64_t>;
template class kws::mapper::StringToIntMapper<uint16_t>;
template class kws::mapper::StringEventToIntMapper<int32_t>;
template class kws::mapper::ScoredEventMapper<kws::mapper::StringEventToIntMapper<int32_t>>;
template class kws::mapper::IdentityMapper<kwsv_driver::Ref>;
template class kws::mapper::ScoredEventMapper<kws::mapper::IdentityMapper<kwsv_driver::Ref>>;
template class kws::reader::PlainTextMapEventReader<kws::mapper::Mapper<
    kws::core::Event<std::string, std::string>, kwsv_driver::IRef>>;
template class kws::reader::PlainTextMapEventReader<kws::mapper::Mapper<
    kws::core::ScoredEvent<kws::core::Event<std::string, std::string>>, kwsv_driver::IHyp>>;
template class kws::reader::PlainTextMapEventReader<kws::mapper::Mapper<kwsv_driver::Hyp, kwsv_driver::IHyp>>;
template class kws::cmd::Argument<std::string>;
template class kws::cmd::Option<double>;
template class kws::cmd::Option<float>;
template class kws::cmd::Option<int32_t>;
template class kws::cmd::Option<size_t>;
template class kws::cmd::Argument<double>;
template class kws::cmd::Argument<int32_t>;
template class kws::cmd::Argument<size_t>;

namespace kwsv_driver {
template <typename T>
void UseBoxes(std::istream &is, std::ostream &os, T &a, T &b) {
  kws::core::IntersectionArea(a, b);
  kws::core::UnionArea(a, b);
  is >> a;
  os << b;
}

void Use(std::istream &is, std::ostream &os) {
  core::BoundingBox<uint32_t> u1, u2;
  core::BoundingBox<int32_t> i1, i2;
  core::BoundingBox<double> d1, d2;
  core::DocumentBoundingBox<uint32_t> du1, du2;
  core::DocumentBoundingBox<int32_t> di1, di2;
  UseBoxes(is, os, u1, u2);
  UseBoxes(is, os, i1, i2);
  UseBoxes(is, os, d1, d2);
  UseBoxes(is, os, du1, du2);
  UseBoxes(is, os, di1, di2);
  Ref r; Hyp h; IRef ir; IHyp ih;
  core::Event<std::string, std::string> sse;
  is >> r >> h >> ir >> ih >> sse;
  os << r << h << ir << ih << sse;
  core::IntersectionArea(r, h);
  core::UnionArea(r, h);
  typedef core::Match<Ref, Hyp> M;
  M m;
  os << m << m.GetError() << core::MatchErrorCounts();
  std::vector<M> ms;
  std::vector<std::vector<M>> gs;
  std::vector<double> x, y, z;
  std::vector<core::MatchErrorCounts> ec = core::CollapseMatches(ms);
  std::vector<core::MatchError> em = core::GetMatchErrors(ms);
  core::NumTotalReferences(ec);
  core::NumTotalReferences(em);
  core::ComputePrecisionAndRecall(ec, true, &x, &y);
  core::ComputePrecisionAndRecall(em, true, &x, &y);
  core::ComputePrecisionAndRecall(ms, true, true, &x, &y);
  core::ComputeAP(ec, x, true);
  core::ComputeAP(em, x, true);
  core::ComputeAP(x, y, true);
  core::ComputeNDCG<double>(ec);
  core::ComputeNDCG<double>(em);
  core::ComputeGlobalAP(ms, true, true, true);
  core::ComputeGlobalAP(gs, true, true, true, true);
  core::ComputeMeanAP(gs, true, true, true, true);
  core::ComputeGlobalNDCG(ms, true);
  core::ComputeGlobalNDCG(gs, true, true);
  core::ComputeMeanNDCG(gs, true, true);
  core::SortMatchesDecreasingScore(&ms);
  std::unordered_map<std::string, std::string> q2g;
  core::GroupMatchesByQueryGroup(ms, q2g, &gs);
  core::SampleCurveAtGivenPoints(x, y, z, &z, true);
  core::GetEvenlyDistributedPoints01Interval(3, &x);
  core::WriteCurveToFile("", x, y);
  core::GlobalAP<M> gap(true, true, true);
  core::MeanAP<M> map(true, true, true);
  core::GlobalNDCG<M> gnd(true);
  core::MeanNDCG<M> mnd(true);
  gap(ms); gap(gs, true); map(gs, true); gnd(ms); gnd(gs, true); mnd(gs, true);
  std::vector<Ref> refs;
  std::vector<IRef> irefs;
  core::EventSet<Ref> es(refs.begin(), refs.end());
  core::EventSet<IRef> ies(irefs.begin(), irefs.end());
  kws::cmd::Parser p("");
  bool vb; int32_t vi; std::string vs; double vd; size_t vz;
  p.RegisterOption("", "", &vb);
  p.RegisterOption("", "", &vi);
  p.RegisterOption("", "", &vs);
  p.RegisterOption("", "", &vd);
  p.RegisterOption("", "", &vz);
  p.RegisterArgument("", "", &vb);
  p.RegisterArgument("", "", &vs);
  p.RegisterOptArgument("", "", &vs);
  p.RegisterArgument("", "", &vi);
  double lo, hi;
  core::MatchesByQuerySampler<Ref, Hyp> qs(1);
  core::MatchesSampler<Ref, Hyp> sa(1);
  auto stat_g = [](const std::vector<std::vector<M>> &) -> double { return 0; };
  auto stat_m = [](const std::vector<M> &) -> double { return 0; };
  core::ComputePercentileBootstrapCI(ms, 1, 0.5, stat_m, &sa, &lo, &hi);
  core::ComputePercentileBootstrapCI(gs, 1, 0.5, 1, stat_g, &lo, &hi);
}
}  // namespace kwsv_driver
