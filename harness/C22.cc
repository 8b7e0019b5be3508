// C22: whole runs of the evaluation tools against a separate computation of the scores
// from the events the input files were written from.
#include "oracle.h"
#include <fstream>
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/EventSet.h"
#define main kws_main_icdar17
#include "tools/Icdar17KwsEval.cc"
#undef main
#define main kws_main_simple
#include "tools/SimpleKwsEval.cc"
#undef main
using kws::scorer::TrivialScorer;
static std::string Dir() { const char *d = std::getenv("HX_DIR"); return std::string(d ? d : "/tmp") + "/hx22."; }

// one event of an input file, and its line
struct Ev {
  std::string q, where;   // query; location (document and box, or one word)
  uint32_t b[4];
  float score;
  std::string Line(bool hyp) const { return q + " " + where + Tail(hyp); }
  bool box;
  std::string Tail(bool hyp) const {
    std::string s;
    if (box) for (uint32_t x : b) s += " " + std::to_string(x);
    return hyp ? s + " " + hx::Str(score) : s;
  }
  Ref R(Ref *) const { return Ref(q, DBox(where, b[0], b[1], b[2], b[3])); }
};
static bool Less(const Ev &a, const Ev &b) {
  if (a.score != b.score) return a.score < b.score;
  if (a.q != b.q) return a.q < b.q;
  if (a.where != b.where) return a.where < b.where;
  for (int i = 0; i < 4; ++i) if (a.b[i] != b.b[i]) return a.b[i] < b.b[i];
  return false;
}
static bool Down(const Ev &a, const Ev &b) { return Less(b, a); }

struct Config {
  bool box, c = true, i = true, t = true, boot[4] = {false, false, false, false};
  std::string sort = "desc";
  bool set = false, groups = false, from_stdin = false, grp = false, mrp = false, dump = false;
  std::vector<std::string> queries;                       // query set
  std::vector<std::vector<std::string>> lines;            // groups file
  size_t samples = 10000, seed = 0x12345, points = 10000;
  double alpha = 0.05;
  std::vector<Ev> refs, hyps;
};

// matches as the tools' scorers see them
template <typename MT> struct Kit;
template <> struct Kit<M> {
  kws::scorer::IntersectionOverHypothesisAreaScorer<Ref, Hyp> sc{0.5};
  Ref R(const Ev &e) { return Ref(e.q, DBox(e.where, e.b[0], e.b[1], e.b[2], e.b[3])); }
  Hyp H(const Ev &e) { return Hyp(e.q, DBox(e.where, e.b[0], e.b[1], e.b[2], e.b[3]), e.score); }
  Ms Match(const std::vector<Ev> &r, const std::vector<Ev> &h) {
    std::vector<Ref> rs; std::vector<Hyp> hs;
    for (auto &e : r) rs.push_back(R(e));
    for (auto &e : h) hs.push_back(H(e));
    SimpleMatcher<Ref, Hyp> m(&sc);
    return m.Match(rs, hs);
  }
  std::string Query(const Ref &r) { return r.Query(); }
};
template <> struct Kit<IM> {
  TrivialScorer<IRef, IHyp> sc;
  std::map<std::string, int> ids;
  std::vector<std::string> names;
  int Id(const std::string &s) {
    auto it = ids.find(s);
    if (it != ids.end()) return it->second;
    names.push_back(s);
    return ids[s] = (int)names.size() - 1;
  }
  IMs Match(const std::vector<Ev> &r, const std::vector<Ev> &h) {
    std::vector<IRef> rs; std::vector<IHyp> hs;
    for (auto &e : r) rs.push_back(IRef(Id(e.q), Id(e.where)));
    for (auto &e : h) hs.push_back(IHyp(Id(e.q), Id(e.where), e.score));
    SimpleMatcher<IRef, IHyp> m(&sc);
    return m.Match(rs, hs);
  }
  std::string Query(const IRef &r) { return names[r.Query()]; }
};

static std::string F(const char *n) { return Dir() + n; }
static void Write(const std::string &f, const std::string &text) {
  std::ofstream o(f);
  o << text;
}
static std::string Read(const std::string &f) {
  std::ifstream i(f);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}
struct Out { int code; std::string out, err; bool threw; };
static Out Run(bool box, const std::vector<std::string> &args, const std::string &in) {
  std::vector<const char *> av{"tool"};
  for (auto &a : args) av.push_back(a.c_str());
  std::ostringstream o, e;
  std::istringstream i(in);
  auto *ob = std::cout.rdbuf(o.rdbuf());
  auto *eb = std::cerr.rdbuf(e.rdbuf());
  auto *ib = std::cin.rdbuf(i.rdbuf());
  std::cin.clear();
  Out r{0, "", "", false};
  try {
    r.code = box ? kws_main_icdar17((int)av.size(), av.data()) : kws_main_simple((int)av.size(), av.data());
  } catch (const std::exception &) { r.threw = true; }
  std::cout.rdbuf(ob); std::cerr.rdbuf(eb); std::cin.rdbuf(ib);
  r.out = o.str(); r.err = e.str();
  return r;
}
static std::string Onoff(bool b) { return hx::Coin() ? (b ? "true" : "false") : (b ? "1" : "0"); }

static void Numbers(const std::string &l, const char *name, std::vector<double> *v) {
  size_t n = std::string(name).size();
  hx::Check(l.compare(0, n, name) == 0 && l.compare(n, 3, " = ") == 0, "line \"" + l + "\" where " + name + " is expected");
  std::string s = l.substr(n + 3);
  for (char &c : s) if (c == '[' || c == ']' || c == ',') c = ' ';
  std::istringstream is(s);
  double d;
  while (is >> d) v->push_back(d);
}
// value of a resampled curve
static double At(const std::vector<double> &x, const std::vector<double> &y, double t, bool lin) {
  size_t j = 0;
  while (j < x.size() && x[j] < t) ++j;
  if (j == x.size()) return 0;
  if (!lin || j == 0) return y[j];
  double w = (x[j] - t) / (x[j] - x[j - 1]);
  return w * y[j - 1] + (1 - w) * y[j];
}
template <typename MT> static std::vector<double> Row(const std::vector<MT> &ms, const Config &g) {
  std::vector<double> pr, rc, r;
  ComputePrecisionAndRecall(ms, g.c, g.i, &pr, &rc);
  for (size_t k = 0; g.points > 1 && k < g.points; ++k)
    r.push_back(At(rc, pr, (double)k / (double)(g.points - 1), g.t));
  return r;
}
static void CheckExport(const std::string &f, const std::vector<double> &row, const char *what) {
  std::ifstream is(f);
  hx::Check(is.is_open(), std::string(what) + " is missing");
  double x, y;
  size_t k = 0;
  while (is >> x >> y) {
    hx::Check(k < row.size(), std::string(what) + " has too many points");
    hx::CheckNear(x, (double)k / (double)(row.size() - 1), "abscissa of an exported curve", 2e-5);
    hx::CheckNear(y, row[k], what, 2e-5);
    ++k;
  }
  hx::CheckEq(k, row.size(), what);
}

static std::vector<std::string> Args(const Config &g) {
  std::vector<std::vector<std::string>> o;
  Config d;
  auto flag = [&](const char *n, bool v, bool def) {
    if (v == def && hx::Coin(3, 4)) return;
    if (v && hx::Coin()) o.push_back({std::string("--") + n});
    else o.push_back({std::string("--") + n, Onoff(v)});
  };
  flag("collapse_matches", g.c, true);
  flag("interpolated_precision", g.i, true);
  flag("trapezoid_integral", g.t, true);
  flag("bootstrap_ci_gap", g.boot[0], false);
  flag("bootstrap_ci_map", g.boot[1], false);
  flag("bootstrap_ci_gndcg", g.boot[2], false);
  flag("bootstrap_ci_mndcg", g.boot[3], false);
  if (g.sort != "desc" || hx::Coin(1, 4)) o.push_back({"--sort", g.sort});
  if (g.set) o.push_back({"--query_set", F("set")});
  if (g.groups) o.push_back({"--query_groups", F("groups")});
  if (g.dump) o.push_back({"--dump_matches", F("dump")});
  if (g.grp) o.push_back({"--output_grp", F("grp")});
  if (g.mrp) o.push_back({"--output_mrp", F("mrp")});
  if (g.samples != d.samples) o.push_back({"--bootstrap_samples", std::to_string(g.samples)});
  if (g.seed != d.seed) o.push_back({"--bootstrap_seed", std::to_string(g.seed)});
  if (g.alpha != d.alpha) o.push_back({"--bootstrap_alpha", hx::Str(g.alpha)});
  if (g.points != d.points) o.push_back({"--rp_curve_samples", std::to_string(g.points)});
  for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[hx::Below(i)]);
  std::vector<std::string> r;
  for (auto &x : o) for (auto &w : x) r.push_back(w);
  // a flag without value must not be followed by the file name
  if (!r.empty()) r.push_back("--");
  r.push_back(F("ref"));
  if (!g.from_stdin) r.push_back(F("hyp"));
  return r;
}

template <typename MT> static void Whole(const Config &g) {
  Kit<MT> kit;
  std::string rt, ht, st, gt;
  for (auto &e : g.refs) rt += e.Line(false) + "\n";
  for (auto &e : g.hyps) ht += e.Line(true) + "\n";
  for (auto &q : g.queries) st += q + (hx::Coin(1, 4) ? " " : "\n");
  for (auto &l : g.lines) { std::string s; for (auto &q : l) s += (s.empty() ? "" : " ") + q; gt += s + "\n"; }
  Write(F("ref"), rt); Write(F("hyp"), g.from_stdin ? "" : ht); Write(F("set"), st); Write(F("groups"), gt);
  std::remove(F("grp").c_str()); std::remove(F("mrp").c_str()); std::remove(F("dump").c_str());
  auto args = Args(g);
  hx::Case([&] {
    std::string s = g.box ? "Icdar17KwsEval" : "SimpleKwsEval";
    for (auto &a : args) s += " " + a;
    auto one = [](std::string x) { for (char &c : x) if (c == '\n') c = '|'; return x; };
    return s + "; references: " + one(rt) + " hypotheses: " + one(ht) + (g.set ? " set: " + one(st) : "") + (g.groups ? " groups: " + one(gt) : "");
  }, g.refs.size() + g.hyps.size() > 2);
  Out r = Run(g.box, args, g.from_stdin ? ht : "");
  hx::Check(!r.threw, "a run on valid inputs ends by an exception");
  hx::CheckEq(r.code, 0, "exit status of a run on valid inputs");
  // the specified pipeline
  std::map<std::string, std::string> group;
  bool filter = g.set || g.groups;
  if (g.groups) { for (auto &l : g.lines) for (size_t i = 1; i < l.size(); ++i) group[l[i]] = l[0]; }
  else if (g.set) for (auto &q : g.queries) group[q] = q;
  std::vector<Ev> refs, hyps;
  for (auto &e : g.refs) if (!filter || group.count(e.q)) refs.push_back(e);
  for (auto &e : g.hyps) if (!filter || group.count(e.q)) hyps.push_back(e);
  if (g.sort == "desc") std::sort(hyps.begin(), hyps.end(), Down);
  if (g.sort == "asc") std::sort(hyps.begin(), hyps.end(), Less);
  auto ms = kit.Match(refs, hyps);
  std::vector<std::vector<MT>> gs;
  std::map<std::string, size_t> at;
  for (auto &m : ms) {
    std::string q = m.HasRef() ? kit.Query(m.GetRef()) : kit.Query(m.GetHyp());
    if (group.count(q)) q = group[q];
    if (!at.count(q)) { size_t n = gs.size(); at[q] = n; gs.emplace_back(); }
    gs[at[q]].push_back(m);
  }
  double want[4] = {orc::AP(ms, g.c, g.i, g.t), 0, orc::Ndcg(orc::Errs(ms, g.c)), 0};
  for (auto &x : gs) {
    want[1] += orc::AP(x, g.c, g.i, g.t) / (double)gs.size();
    want[3] += orc::Ndcg(orc::Errs(x, g.c)) / (double)gs.size();
  }
  static const char *names[4] = {"gAP", "mAP", "gNDCG", "mNDCG"};
  std::istringstream lines(r.out);
  std::string l;
  for (int k = 0; k < 4; ++k) {
    hx::Check(!!std::getline(lines, l), std::string("no line for ") + names[k]);
    std::vector<double> v;
    Numbers(l, names[k], &v);
    hx::CheckEq(v.size(), (size_t)(g.boot[k] ? 3 : 1), "numbers reported for a score");
    if (!g.boot[k]) { hx::CheckNear(v[0], want[k], names[k], 2e-5); continue; }
    GlobalAP<MT> s0(g.c, g.i, g.t); MeanAP<MT> s1(g.c, g.i, g.t); GlobalNDCG<MT> s2(g.c); MeanNDCG<MT> s3(g.c);
    Statistic<MT> *st[4] = {&s0, &s1, &s2, &s3};
    double lo, hi;
    double x = ComputePercentileBootstrapCI(gs, g.samples, g.alpha, g.seed, [&](const std::vector<std::vector<MT>> &y) -> double { return (*st[k])(y, true); }, &lo, &hi);
    hx::CheckNear(v[0], x, names[k], 2e-5);
    hx::CheckNear(v[1], lo, "lower bound", 2e-5);
    hx::CheckNear(v[2], hi, "upper bound", 2e-5);
  }
  hx::Check(!std::getline(lines, l), "more than the four scores are reported: " + l);
  hx::CheckEq(std::ifstream(F("grp")).is_open(), g.grp, "global curve written");
  hx::CheckEq(std::ifstream(F("mrp")).is_open(), g.mrp, "mean curve written");
  hx::CheckEq(std::ifstream(F("dump")).is_open(), g.dump, "matches written");
  if (g.grp) CheckExport(F("grp"), Row(ms, g), "exported global curve");
  if (g.mrp) {
    std::vector<double> mean(g.points > 1 ? g.points : 0, 0.0);
    for (auto &x : gs) { auto w = Row(x, g); for (size_t k = 0; k < w.size(); ++k) mean[k] += w[k] / (double)gs.size(); }
    CheckExport(F("mrp"), mean, "exported mean curve");
  }
}

// inputs that must end the run with an error and without scores
static void Broken(Config g) {
  std::string rt, ht;
  for (auto &e : g.refs) rt += e.Line(false) + "\n";
  for (auto &e : g.hyps) ht += e.Line(true) + "\n";
  std::string ref = F("ref"), hyp = F("hyp"), what;
  std::vector<std::string> a;
  std::remove(F("none").c_str());
  bool in = false;
  switch (hx::Below(10)) {
    case 0: ref = F("none"); what = "missing reference file"; break;
    case 1: hyp = F("none"); what = "missing hypothesis file"; break;
    case 2: rt += (hx::Coin() ? "onlyquery\n" : g.box ? "q d 1 2 3\n" : "q a b\n"); rt += g.refs.empty() ? "" : g.refs[0].Line(false) + "\n"; what = "malformed reference line"; break;
    case 3: ht += g.box ? "q d 1 2 3 4 x\n" : "q a x\n"; what = "malformed hypothesis line"; break;
    case 4: a = {"--query_set", F("none")}; what = "missing query set"; break;
    case 5: a = {"--query_groups", F("none")}; what = "missing groups file"; break;
    case 6: a = {"--query_groups", F("groups")}; Write(F("groups"), "g a b\nalone\nh c\n"); what = "groups line without queries"; break;
    case 7: in = true; ht += "q\n"; what = "malformed hypotheses on standard input"; break;
    case 8: a = {hx::Coin() ? "--no_such_option" : "--bootstrap_samples", "many"}; what = "bad option"; break;
    default: ref = ""; what = "empty name of the reference file"; break;
  }
  if (a.size() == 2 && hx::Coin(1, 3)) { Write(F("set"), "a b\n"); a.push_back("--query_set"); a.push_back(F("set")); if (what == "missing query set") { a.pop_back(); a.push_back(F("none")); } }
  Write(F("ref"), rt); Write(F("hyp"), ht);
  a.push_back("--");
  a.push_back(ref);
  if (!in) a.push_back(hyp);
  hx::Case([&] { std::string s = g.box ? "Icdar17KwsEval" : "SimpleKwsEval"; for (auto &x : a) s += " " + x; return s + " (" + what + ")"; });
  Out r = Run(g.box, a, in ? ht : "");
  hx::Check(r.threw || r.code != 0, "exit status 0 with a " + what);
  hx::Check(r.out.empty(), "scores are reported with a " + what + ": " + r.out);
}

static Ev RandEv(bool box, int nq, int k) {
  static const std::vector<std::string> qs = {"a", "b", "c", "dog", "e", "f"};
  Ev e;
  e.box = box;
  e.q = qs[hx::Below(nq)];
  e.where = box ? (hx::Coin(3, 4) ? "d1" : "d2") : (hx::Coin() ? qs[hx::Below(nq)] : "l" + std::to_string(hx::Below(6)));
  for (auto &x : e.b) x = 0;
  if (box) { e.b[0] = (uint32_t)hx::Below(6); e.b[1] = (uint32_t)hx::Below(3); e.b[2] = 1 + (uint32_t)hx::Below(6); e.b[3] = 1 + (uint32_t)hx::Below(3); }
  e.score = box && hx::Coin() ? (float)hx::In(-4, 4) / 4 : (float)((k * 37) % 101) / 8 - 5;
  return e;
}
static Config RandConfig() {
  Config g;
  g.box = hx::Coin();
  int nq = 1 + (int)hx::Below(6);
  size_t nr = hx::Below(hx::Coin(1, 5) ? 24 : 8), nh = hx::Below(hx::Coin(1, 5) ? 30 : 10);
  for (size_t i = 0; i < nr; ++i) g.refs.push_back(RandEv(g.box, nq, 0));
  for (size_t i = 0; i < nh; ++i) {
    Ev e = RandEv(g.box, nq, (int)i);
    if (nr && hx::Coin()) {
      const Ev &r = hx::Pick(g.refs);
      e.q = r.q; e.where = r.where;
      for (int k = 0; k < 4; ++k) e.b[k] = r.b[k];
      if (g.box && hx::Coin()) e.b[0] += 1;
    }
    g.hyps.push_back(e);
  }
  // distinct scores for the tool whose events are ordered by their numbers
  if (!g.box) for (size_t i = 0; i < nh; ++i) g.hyps[i].score = (float)((i * 37) % 101) / 8 - 5;
  // scores that are close to each other, or far apart
  if (hx::Coin(1, 4)) { float f = hx::Coin() ? 9.5367431640625e-7f : 1048576.f; for (auto &h : g.hyps) h.score *= f; }
  if (hx::Coin()) { g.c = hx::Coin(); g.i = hx::Coin(); g.t = hx::Coin(); }
  if (hx::Coin(1, 3)) g.sort = hx::Coin() ? "asc" : "none";
  static const std::vector<std::string> qs = {"a", "b", "c", "dog", "e", "f", "zz"};
  g.set = hx::Coin(1, 3);
  g.groups = hx::Coin(1, 3);
  for (auto &q : qs) if (hx::Coin()) g.queries.push_back(q);
  std::vector<std::string> rest = qs;
  for (size_t i = rest.size(); i > 1; --i) std::swap(rest[i - 1], rest[hx::Below(i)]);
  rest.resize(hx::Below(rest.size() + 1));
  while (!rest.empty()) {
    std::vector<std::string> l{hx::Coin() ? hx::Pick(qs) : "G" + std::to_string(hx::Below(2))};
    size_t n = 1 + hx::Below(3);
    while (n-- && !rest.empty()) { l.push_back(rest.back()); rest.pop_back(); }
    g.lines.push_back(l);
  }
  g.from_stdin = hx::Coin(1, 5);
  g.grp = hx::Coin(1, 4); g.mrp = hx::Coin(1, 4); g.dump = hx::Coin(1, 6);
  if (g.grp || g.mrp || hx::Coin(1, 4)) g.points = hx::Below(24);
  if (hx::Coin(1, 4)) {
    for (auto &b : g.boot) b = hx::Coin();
    g.samples = hx::Below(20);
    g.seed = hx::Coin() ? g.seed : hx::Below(1000);
    static const std::vector<double> as = {0.05, 0.5, 0.25, 1, 0};
    g.alpha = hx::Pick(as);
  }
  return g;
}
static void Body() {
  while (hx::TimeLeft()) {
    Config g = RandConfig();
    if (g.box) Whole<M>(g); else Whole<IM>(g);
    if (hx::Coin(1, 4)) Broken(g);
  }
}
HX_MAIN(Body)
