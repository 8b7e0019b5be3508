#include "types.h"
// plain description of a record
struct Plain {
  bool hasr = false, hash = false;
  int rq = 0, rl = 0, hq = 0, hl = 0;
  float hs = 0, fp = 0, fn = 0;
  bool operator==(const Plain &o) const {
    return hasr == o.hasr && hash == o.hash && fp == o.fp && fn == o.fn &&
           (!hasr || (rq == o.rq && rl == o.rl)) && (!hash || (hq == o.hq && hl == o.hl && hs == o.hs));
  }
};
static Plain Of(const IM &m) {
  Plain p;
  p.hasr = m.HasRef();
  p.hash = m.HasHyp();
  if (p.hasr) { p.rq = m.GetRef().Query(); p.rl = m.GetRef().Location(); }
  if (p.hash) { p.hq = m.GetHyp().Query(); p.hl = m.GetHyp().Location(); p.hs = m.GetHyp().Score(); }
  p.fp = m.GetError().FP();
  p.fn = m.GetError().FN();
  return p;
}
static Plain RandPlain() {
  Plain p;
  p.hasr = hx::Coin(); p.hash = hx::Coin();
  p.rq = (int)hx::Below(2); p.rl = (int)hx::Below(2); p.hq = (int)hx::Below(2); p.hl = (int)hx::Below(2);
  p.hs = (float)hx::Below(2) * .5f; p.fp = (float)hx::Below(2); p.fn = (float)hx::Below(3) * .5f;
  return p;
}
static void Build(IM *m, const Plain &p) {
  m->SetError(MatchError(p.fp, p.fn));
  if (p.hasr) m->SetRef(IRef(p.rq, p.rl));
  if (p.hash) m->SetHyp(IHyp(p.hq, p.hl, p.hs));
}
static std::string Desc(const Plain &p) {
  IM m;
  Build(&m, p);
  return Show(m);
}
static void Pairs(const Plain &a, const Plain &b) {
  hx::Case([&] { return "a=" + Desc(a) + " b=" + Desc(b); }, a.hasr || a.hash);
  IM ma, mb;
  Build(&ma, a);
  Build(&mb, b);
  hx::Check(Of(ma) == a && Of(mb) == b, "setters do not store what they are given");
  hx::CheckEq(ma == mb, a == b, "a == b");
  hx::CheckEq(ma != mb, !(a == b), "a != b");
  {
    IM c(ma);
    hx::Check(Of(c) == a, "copy differs from its source");
    hx::Check(c == ma && !(c != ma), "copy is not equal to its source");
    hx::Check(Of(ma) == a, "copying changed the source");
    // independence of copy and source
    c.SetRef(IRef(7, 7)); c.SetHyp(IHyp(7, 7, 7.f)); c.SetError(MatchError(.125f, .125f));
    hx::Check(Of(ma) == a, "changing the copy changed the source");
    IM d(ma);
    { IM e(ma); }
    hx::Check(Of(d) == a && Of(ma) == a, "destroying a copy damaged another record");
  }
  {
    IM c, s;
    Build(&c, b); Build(&s, a);
    c = s;
    hx::Check(Of(c) == a, "assignment: target differs from the source");
    hx::Check(Of(s) == a, "assignment changed the source");
    s.SetRef(IRef(7, 7)); s.SetHyp(IHyp(7, 7, 7.f)); s.SetError(MatchError(.125f, .125f));
    hx::Check(Of(c) == a, "target shares parts with the source of an assignment");
    IM &self = c;
    c = self;
    hx::Check(Of(c) == a, "self-assignment changed the record");
  }
  {
    IM c, s;
    Build(&c, b); Build(&s, a);
    c = std::move(s);
    hx::Check(Of(c) == a, "move assignment: target differs from the source");
  }
  {
    std::vector<IM> v;
    for (int i = 0; i < 5; ++i) v.push_back(i % 2 ? ma : mb);
    std::swap(v[0], v[1]);
    hx::Check(Of(v[0]) == a && Of(v[1]) == b, "swapping records");
  }
}
static void Run() {
  std::vector<Plain> all;
  for (int i = 0; i < 16; ++i) {
    Plain p;
    p.hasr = i & 1; p.hash = i & 2; p.fp = i & 4 ? 1.f : 0.f; p.fn = i & 8 ? 1.f : 0.f; p.hs = .5f;
    all.push_back(p);
  }
  for (auto &a : all) for (auto &b : all) Pairs(a, b);
  for (int q = 0; q < 3; ++q) for (int l = 0; l < 3; ++l) {
    IHyp h(q, l, q * .5f);
    IRef r(q, l);
    hx::Case([&] { return "event " + hx::Str(h); });
    IM f = IM::MakeFalsePositive(h), n = IM::MakeFalseNegative(r);
    hx::Check(f.HasHyp() && !f.HasRef() && f.GetHyp() == h && f.GetError().FP() == 1 && f.GetError().FN() == 0,
              "false-positive record");
    hx::Check(!n.HasHyp() && n.HasRef() && n.GetRef() == r && n.GetError().FP() == 0 && n.GetError().FN() == 1,
              "false-negative record");
    IM b(r, h, MatchError(.25f, .5f));
    hx::Check(b.HasHyp() && b.HasRef() && b.GetHyp() == h && b.GetRef() == r && b.GetError().FP() == .25f &&
              b.GetError().FN() == .5f, "record of a pair");
    IM e;
    hx::Check(!e.HasHyp() && !e.HasRef() && e.GetError().FP() == 0 && e.GetError().FN() == 0, "empty record");
  }
  while (hx::TimeLeft()) for (int i = 0; i < 100; ++i) {
    Plain a = RandPlain(), b = hx::Coin(1, 4) ? a : RandPlain();
    Pairs(a, b);
  }
}
HX_MAIN(Run)
