// C17: event texts against the list of lines they were built from.
#include "types.h"
#include <fstream>
#include "mapper/StringEventToIntMapper.h"
#include "mapper/ScoredEventMapper.h"
#include "reader/PlainTextMapEventReader.h"
#include "reader/PlainTextReader.h"
#include "mapper/IdentityMapper.h"
typedef Event<std::string, std::string> SRef;
typedef ScoredEvent<SRef> SHyp;
template <typename E> struct Recorder {
  typedef E InputType;
  typedef std::pair<int, E> OutputType;
  std::vector<E> seen;
  OutputType operator()(const E &e) { seen.push_back(e); return {(int)seen.size(), e}; }
};
static std::string Word(bool first) {
  static const std::string odd = "\"#,;:-_.+()[]{}'\\/%$0123456789\xc3\xa9\x80\xff";
  std::string s;
  size_t n = 1 + hx::Below(hx::Coin(1, 20) ? 200 : 5);
  for (size_t i = 0; i < n; ++i) {
    char c = hx::Coin() ? (char)('a' + hx::Below(26)) : odd[hx::Below(odd.size())];
    s += first && i == 0 && c == '#' ? 'q' : c;
  }
  return s;
}
static std::string Blank(bool some) {
  static const std::string w = "    \t\t\v\f\r";
  std::string s;
  size_t n = (some ? 1 : 0) + hx::Below(3);
  for (size_t i = 0; i < n; ++i) s += w[hx::Below(w.size())];
  return s;
}
static uint32_t Number() {
  return hx::Coin(1, 6) ? 4294967295u : hx::Coin() ? (uint32_t)hx::Below(100) : (uint32_t)hx::Next();
}
static float MkScore() { return (float)hx::In(-64, 64) / 8; }
static std::string Txt(double v) { std::ostringstream o; o << v; return o.str(); }
// a random event and its fields
static void Make(SRef *e, std::vector<std::string> *f) {
  std::string q = Word(true), l = Word(false);
  *e = SRef(q, l);
  *f = {q, l};
}
static void Make(Ref *e, std::vector<std::string> *f) {
  std::string q = Word(true), d = Word(false);
  uint32_t a[4];
  for (auto &x : a) x = Number();
  *e = Ref(q, DBox(d, a[0], a[1], a[2], a[3]));
  *f = {q, d};
  for (auto x : a) f->push_back(std::to_string(x));
}
static void Make(SHyp *e, std::vector<std::string> *f) {
  SRef r;
  Make(&r, f);
  float s = MkScore();
  *e = SHyp(r.Query(), r.Location(), s);
  f->push_back(Txt(s));
}
static void Make(Hyp *e, std::vector<std::string> *f) {
  Ref r;
  Make(&r, f);
  float s = MkScore();
  *e = Hyp(r.Query(), r.Location(), s);
  f->push_back(Txt(s));
}
static bool Numeric(const SRef *, size_t) { return false; }
static bool Numeric(const Ref *, size_t i) { return i >= 2; }
static bool Numeric(const SHyp *, size_t i) { return i == 2; }
static bool Numeric(const Hyp *, size_t i) { return i >= 2; }
static bool Same(const SRef &a, const SRef &b) { return a.Query() == b.Query() && a.Location() == b.Location(); }
static bool SameB(const DBox &a, const DBox &b) {
  return a.document == b.document && a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h;
}
static bool Same(const Ref &a, const Ref &b) { return a.Query() == b.Query() && SameB(a.Location(), b.Location()); }
static bool Same(const SHyp &a, const SHyp &b) {
  return a.Query() == b.Query() && a.Location() == b.Location() && a.Score() == b.Score();
}
static bool Same(const Hyp &a, const Hyp &b) {
  return a.Query() == b.Query() && SameB(a.Location(), b.Location()) && a.Score() == b.Score();
}
static std::string Join(const std::vector<std::string> &f) {
  std::string s = Blank(false);
  for (size_t i = 0; i < f.size(); ++i) s += (i ? Blank(true) : "") + f[i];
  return s + Blank(false);
}
static std::string Esc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r"; else r += c;
  }
  return r;
}
struct Capture {
  std::ostringstream o;
  std::streambuf *old;
  Capture() : old(std::cerr.rdbuf(o.rdbuf())) {}
  ~Capture() { std::cerr.rdbuf(old); }
  bool Says(size_t n) const {
    const std::string s = o.str();
    for (size_t i = 0; i < s.size();) {
      if (!isdigit((unsigned char)s[i])) { ++i; continue; }
      size_t j = i;
      unsigned long v = 0;
      while (j < s.size() && isdigit((unsigned char)s[j])) v = v * 10 + (s[j++] - '0');
      if (v == n) return true;
      i = j;
    }
    return false;
  }
};
template <typename E> static void Text(size_t before = 0) {
  const size_t n = hx::Below(hx::Coin(1, 30) ? 60 : 7);
  const int bad = hx::Coin(2, 5) ? 1 : 0;
  std::vector<E> want;
  std::string text;
  size_t first_bad = 0;
  text.append(before, '\n');
  for (size_t i = 1; i <= n; ++i) {
    std::string line;
    switch (hx::Below(bad ? 5 : 4)) {
      case 0: line = Blank(false); break;
      case 1: line = Blank(false) + "#" + (hx::Coin() ? Blank(false) + Word(false) + " 1 2" : ""); break;
      case 4: {
        E e;
        std::vector<std::string> f;
        Make(&e, &f);
        const size_t k = hx::Below(f.size());
        switch (hx::Below(4)) {
          case 0: f.push_back(hx::Coin(1, 4) ? "#" : Word(false)); break;
          case 1: f.pop_back(); break;
          case 2: f.resize(1 + hx::Below(f.size())); f.back() = "x"; if (!Numeric((E *)nullptr, f.size() - 1)) f.resize(1); break;
          default: if (Numeric((E *)nullptr, k)) f[k] = hx::Coin() ? "x" : f[k] + "x"; else f.push_back("0"); break;
        }
        line = Join(f);
        if (!first_bad) first_bad = before + i;
        break;
      }
      default: {
        E e;
        std::vector<std::string> f;
        Make(&e, &f);
        line = Join(f);
        if (!first_bad) want.push_back(e);
      }
    }
    text += line;
    // a last line need not be ended
    if (i < n || line.empty() || hx::Coin()) text += "\n";
  }
  hx::Case([=] { return std::to_string(before) + " blank lines, then: \"" + Esc(text.substr(before)) + "\""; }, n > 0);
  const std::string path = std::string(getenv("HX_DIR") ? getenv("HX_DIR") : "/tmp") + "/hx17.txt";
  E junk;
  std::vector<std::string> f;
  Make(&junk, &f);
  for (int way = 0; way < 4; ++way) {
    if (way > 1 && hx::Coin(9, 10)) continue;
    if (way > 1) { std::ofstream o(path, std::ios::binary); o << text; }
    std::istringstream is(text);
    Capture cap;
    bool ok;
    std::vector<E> got;
    if (way & 1) {
      Recorder<E> m;
      std::vector<std::pair<int, E>> out(hx::Below(3), {77, junk});
      kws::reader::PlainTextMapEventReader<Recorder<E>> rd(&m);
      ok = way < 2 ? rd.Read(&is, &out) : rd.Read(path, &out);
      if (ok)
        for (size_t i = 0; i < out.size(); ++i) {
          hx::Check(out[i].first == (int)i + 1, "event " + std::to_string(i) + " is not mapped once, in order");
          got.push_back(out[i].second);
        }
    } else {
      kws::reader::PlainTextReader<E> rd;
      got.assign(hx::Below(3), junk);
      ok = way < 2 ? rd.Read(&is, &got) : rd.Read(path, &got);
    }
    if (first_bad) {
      hx::Check(!ok, "reading succeeds although line " + std::to_string(first_bad) + " is malformed");
      hx::Check(cap.Says(first_bad), "the malformed line " + std::to_string(first_bad) + " is not reported: " + cap.o.str());
    } else {
      hx::Check(ok, "reading fails although all lines are well-formed: " + cap.o.str());
      hx::CheckEq(got.size(), want.size(), "number of events");
      for (size_t i = 0; i < got.size(); ++i) hx::Check(Same(got[i], want[i]), "event " + std::to_string(i) + " differs");
    }
  }
  if (hx::Coin(1, 20)) {
    ::unlink(path.c_str());
    Recorder<E> m;
    std::vector<std::pair<int, E>> out;
    kws::reader::PlainTextMapEventReader<Recorder<E>> rd(&m);
    Capture cap;
    hx::Case([=] { return "file that does not exist: " + path; });
    hx::Check(!rd.Read(path, &out), "reading a missing file succeeds");
    hx::Check(m.seen.empty(), "events come from a missing file");
  }
}
// string events to integers: equal strings get equal numbers
static void Ints() {
  std::string text;
  std::vector<std::pair<std::string, std::string>> w;
  const size_t n = hx::Below(12);
  for (size_t i = 0; i < n; ++i) {
    std::string q(1, (char)('a' + hx::Below(4))), l(1, (char)('p' + hx::Below(3)));
    w.push_back({q, l});
    text += q + " " + l + " " + std::to_string(i) + "\n";
  }
  hx::Case([=] { return "text: \"" + Esc(text) + "\""; }, n > 0);
  typedef kws::mapper::StringEventToIntMapper<int32_t> RM;
  typedef kws::mapper::ScoredEventMapper<RM> HM;
  kws::mapper::StringToIntMapper<int32_t> sm;
  RM rm(&sm);
  HM hm(&rm);
  kws::reader::PlainTextMapEventReader<HM> rd(&hm);
  std::istringstream is(text);
  std::vector<IHyp> out;
  hx::Check(rd.Read(&is, &out), "reading fails");
  hx::CheckEq(out.size(), w.size(), "number of events");
  for (size_t i = 0; i < n; ++i) {
    hx::CheckEq(out[i].Score(), (float)i, "score");
    for (size_t j = 0; j < i; ++j) {
      hx::Check((out[i].Query() == out[j].Query()) == (w[i].first == w[j].first), "query identity");
      hx::Check((out[i].Location() == out[j].Location()) == (w[i].second == w[j].second), "location identity");
    }
  }
}
static void All() {
  for (int i = 0; i < 300 || (hx::TimeLeft() && i < 2000000); ++i) {
    Text<SRef>();
    Text<Ref>();
    Text<SHyp>();
    Text<Hyp>();
    Ints();
    if (i % 50 == 7) Text<SHyp>(65530 + hx::Below(20));
  }
}
HX_MAIN(All)
