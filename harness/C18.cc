// C18: text form of boxes and events against a plain list of words.
#include "types.h"
static std::string Word() {
  static const std::string odd = "\"#,;:-_.+()[]{}'\\/%$0123456789\xc3\xa9\x80\xff";
  std::string s;
  size_t n = 1 + hx::Below(hx::Coin(1, 8) ? 300 : 6);
  for (size_t i = 0; i < n; ++i) s += hx::Coin() ? (char)('a' + hx::Below(26)) : odd[hx::Below(odd.size())];
  return s;
}
static std::string Blank(bool one_line) {
  static const std::string w = " \t\n\r\v\f";
  std::string s;
  size_t n = 1 + hx::Below(4);
  for (size_t i = 0; i < n; ++i) s += one_line ? (hx::Coin() ? ' ' : '\t') : w[hx::Below(w.size())];
  return s;
}
template <typename T> static T Num() {
  switch (hx::Below(5)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::lowest();
    case 2: return (T)hx::Below(1000);
    default: return (T)hx::Next();
  }
}
template <> double Num<double>() {
  return hx::Coin() ? (double)hx::In(-1000, 1000) : hx::In(-99999, 99999) / 8.0 / 16;
}
template <typename T> static std::string Txt(T v) { return std::to_string(v); }
template <> std::string Txt(double v) { std::ostringstream o; o << v; return o.str(); }
template <> std::string Txt(float v) { std::ostringstream o; o << v; return o.str(); }
static float Score() {
  if (hx::Coin(1, 5)) return (hx::Coin() ? -1.f : 1.f) * std::ldexp((float)hx::In(1, 4095), (int)hx::In(0, 40));
  return hx::Coin() ? (float)hx::In(-50, 50) / 4 : (float)hx::In(-999, 999) / 1000;
}
static std::string Join(const std::vector<std::string> &f, const std::string &sep) {
  std::string s;
  for (size_t i = 0; i < f.size(); ++i) s += (i ? sep : "") + f[i];
  return s;
}
static std::string Esc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c;
  }
  return r;
}
// v has the fields f; old is any other value
template <typename T, typename Same>
static void RoundTrip(const T &v, const T &old, const std::vector<std::string> &f, Same same) {
  const std::string want = Join(f, " ");
  hx::Case([=] { return "fields: " + want; });
  std::ostringstream o;
  o << "<" << v << ">";
  hx::CheckEq(o.str(), "<" + want + ">", "text written");
  // read back what was written
  {
    T r(old);
    std::istringstream is(want);
    is >> r;
    hx::Check(!is.fail(), "reading back fails");
    hx::Check(is.eof(), "reading back leaves text");
    same(r);
  }
  // any white space between the fields; what follows stays
  {
    std::string t = hx::Coin() ? Blank(false) : "";
    for (size_t i = 0; i < f.size(); ++i) t += (i ? Blank(false) : "") + f[i];
    const std::string rest = Word();
    hx::Case([=] { return "text: " + Esc(t) + "| followed by: " + rest; });
    T r(old);
    std::istringstream is(t + Blank(false) + rest);
    is >> r;
    hx::Check(!is.fail(), "reading fails");
    same(r);
    std::string next;
    is >> next;
    hx::CheckEq(next, rest, "text after the value");
  }
  // a field is missing
  {
    std::vector<std::string> g(f.begin(), f.begin() + hx::Below(f.size()));
    const std::string t = Join(g, " ");
    hx::Case([=] { return "text without the last fields: " + t; });
    T r(old);
    std::istringstream is(t);
    is >> r;
    hx::Check(is.fail(), "reading succeeds although fields are missing");
  }
}
template <typename T> static void Boxes() {
  T a[4], b[4];
  std::vector<std::string> f;
  for (int i = 0; i < 4; ++i) { a[i] = Num<T>(); b[i] = Num<T>(); f.push_back(Txt(a[i])); }
  for (int i = 0; i < 4; ++i) if (std::is_floating_point<T>::value) { std::istringstream is(f[i]); is >> a[i]; }
  BoundingBox<T> x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]);
  RoundTrip(x, y, f, [&](const BoundingBox<T> &r) {
    hx::CheckEq(r.x, a[0], "x"); hx::CheckEq(r.y, a[1], "y");
    hx::CheckEq(r.w, a[2], "w"); hx::CheckEq(r.h, a[3], "h");
  });
  const std::string d = Word();
  f.insert(f.begin(), d);
  DocumentBoundingBox<T> dx(d, a[0], a[1], a[2], a[3]), dy("z", b[0], b[1], b[2], b[3]);
  RoundTrip(dx, dy, f, [&](const DocumentBoundingBox<T> &r) {
    hx::CheckEq(r.document, d, "document");
    hx::CheckEq(r.x, a[0], "x"); hx::CheckEq(r.y, a[1], "y");
    hx::CheckEq(r.w, a[2], "w"); hx::CheckEq(r.h, a[3], "h");
  });
}
static void Events() {
  uint32_t a[4];
  const std::string q = Word(), d = Word();
  std::vector<std::string> f = {q, d};
  for (int i = 0; i < 4; ++i) { a[i] = Num<uint32_t>(); f.push_back(Txt(a[i])); }
  auto loc = [&](const DBox &r) {
    hx::CheckEq(r.document, d, "document");
    hx::CheckEq(r.x, a[0], "x"); hx::CheckEq(r.y, a[1], "y");
    hx::CheckEq(r.w, a[2], "w"); hx::CheckEq(r.h, a[3], "h");
  };
  const DBox l(d, a[0], a[1], a[2], a[3]), l2("old", 1, 2, 3, 4);
  typedef Event<std::string, DBox> EvB;
  RoundTrip(EvB(q, l), EvB("o", l2), f, [&](const EvB &r) { hx::CheckEq(r.Query(), q, "query"); loc(r.Location()); });
  RoundTrip(Ref(q, l), Ref("o", l2), f, [&](const Ref &r) { hx::CheckEq(r.Query(), q, "query"); loc(r.Location()); });
  typedef Event<std::string, std::string> EvS;
  RoundTrip(EvS(q, d), EvS("o", "p"), {q, d}, [&](const EvS &r) {
    hx::CheckEq(r.Query(), q, "query"); hx::CheckEq(r.Location(), d, "location");
  });
  const int32_t iq = Num<int32_t>(), il = Num<int32_t>();
  RoundTrip(IRef(iq, il), IRef(1, 2), {Txt(iq), Txt(il)}, [&](const IRef &r) {
    hx::CheckEq(r.Query(), iq, "query"); hx::CheckEq(r.Location(), il, "location");
  });
  const float s = Score();
  std::istringstream is(Txt(s));
  float ps = 0;
  is >> ps;
  f.push_back(Txt(s));
  RoundTrip(Hyp(q, l, s), Hyp("o", l2, 7.f), f, [&](const Hyp &r) {
    hx::CheckEq(r.Query(), q, "query"); loc(r.Location()); hx::CheckEq(r.Score(), ps, "score");
  });
  RoundTrip(IHyp(iq, il, s), IHyp(1, 2, 7.f), {Txt(iq), Txt(il), Txt(s)}, [&](const IHyp &r) {
    hx::CheckEq(r.Query(), iq, "query"); hx::CheckEq(r.Location(), il, "location");
    hx::CheckEq(r.Score(), ps, "score");
  });
}
static void All() {
  for (int i = 0; i < 200 || (hx::TimeLeft() && i < 2000000); ++i) {
    Boxes<uint32_t>();
    Boxes<int32_t>();
    Boxes<double>();
    Events();
  }
}
HX_MAIN(All)
