#include "types.h"

template <typename T, typename K>
static void Pair(const T &a, const K &ka, const T &b, const K &kb, const char *ty) {
  hx::Case([&] { return std::string(ty) + " a=(" + hx::Str(a) + ") b=(" + hx::Str(b) + ")"; }, ka != kb);
  hx::CheckEq(a == b, ka == kb, "a == b");
  hx::CheckEq(a != b, ka != kb, "a != b");
  hx::CheckEq(a < b, ka < kb, "a < b");
  hx::CheckEq(a > b, ka > kb, "a > b");
  hx::CheckEq(a <= b, ka <= kb, "a <= b");
  hx::CheckEq(a >= b, ka >= kb, "a >= b");
}
template <typename T, typename K>
static void Group(const std::vector<std::pair<T, K>> &v, const char *ty) {
  for (const auto &a : v)
    for (const auto &b : v) Pair(a.first, a.second, b.first, b.second, ty);
}
template <typename C> static std::vector<C> Coords();
template <> std::vector<uint32_t> Coords() { return {0, 1, 2, 7, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}; }
template <> std::vector<int32_t> Coords() { return {0, 1, 2, -1, -7, 0x7fffffff, (int32_t)0x80000000, -2}; }
template <> std::vector<double> Coords() { return {0, 1, -1, 0.5, 1e-300, -1e300, 1e17, 1e17 + 16}; }
template <> std::vector<uint64_t> Coords() { return {0, 1, 2, 1ull << 32, (1ull << 32) + 1, 1ull << 63, ~0ull, 3}; }

static std::vector<std::string> Words() { return {"", "a", "b", "ab", "aa", "B", "z", "\xc3\xa9", "b "}; }

template <typename C> static std::tuple<C, C, C, C> RandKey(const std::vector<C> &cs) {
  return std::tuple<C, C, C, C>(hx::Pick(cs), hx::Pick(cs), hx::Pick(cs), hx::Pick(cs));
}
template <typename C> static BoundingBox<C> MkBox(const std::tuple<C, C, C, C> &k) {
  return BoundingBox<C>(std::get<0>(k), std::get<1>(k), std::get<2>(k), std::get<3>(k));
}
template <typename C> static DocumentBoundingBox<C> MkDBox(const std::string &d, const std::tuple<C, C, C, C> &k) {
  return DocumentBoundingBox<C>(d, std::get<0>(k), std::get<1>(k), std::get<2>(k), std::get<3>(k));
}
template <typename C> static void Boxes(const char *ty, int n) {
  typedef std::tuple<C, C, C, C> K;
  std::vector<C> cs = Coords<C>();
  // random subset of the coordinates, so that ties are frequent
  std::vector<C> few = {hx::Pick(cs), hx::Pick(cs)};
  std::vector<std::pair<BoundingBox<C>, K>> v;
  std::vector<std::pair<DocumentBoundingBox<C>, std::pair<std::string, K>>> d;
  std::vector<std::string> ws = Words();
  std::vector<std::string> fw = {hx::Pick(ws), hx::Pick(ws)};
  for (int i = 0; i < n; ++i) {
    K k = RandKey(hx::Coin() ? few : cs);
    v.emplace_back(MkBox(k), k);
    std::string w = hx::Pick(hx::Coin() ? fw : ws);
    d.emplace_back(MkDBox(w, k), std::make_pair(w, k));
  }
  Group(v, ty);
  Group(d, (std::string("document ") + ty).c_str());
}
static void Events(int n) {
  typedef std::tuple<uint32_t, uint32_t, uint32_t, uint32_t> K;
  typedef std::pair<std::string, K> DK;
  std::vector<uint32_t> cs = Coords<uint32_t>();
  std::vector<uint32_t> few = {hx::Pick(cs), hx::Pick(cs)};
  std::vector<std::string> ws = Words();
  std::vector<std::string> fw = {hx::Pick(ws), hx::Pick(ws)};
  std::vector<int> is = {0, 1, -1, 5, 0x7fffffff, (int)0x80000000};
  std::vector<float> ss = {0.f, 1.f, -1.f, 0.5f, 1e-30f, -3e38f, std::numeric_limits<float>::infinity(),
                           -std::numeric_limits<float>::infinity(), 16777216.f, 16777218.f, 0.50000006f, 1.00000012f, 2e-30f};
  std::vector<float> fs = {hx::Pick(ss), hx::Pick(ss)};
  std::vector<std::pair<Ref, std::pair<std::string, DK>>> r;
  std::vector<std::pair<Hyp, std::pair<float, std::pair<std::string, DK>>>> h;
  std::vector<std::pair<IRef, std::pair<int, int>>> ir;
  std::vector<std::pair<IHyp, std::tuple<float, int, int>>> ih;
  std::vector<std::pair<Event<std::string, std::string>, std::pair<std::string, std::string>>> s;
  std::vector<std::pair<ScoredEvent<Event<std::string, std::string>>, std::tuple<float, std::string, std::string>>> hs;
  for (int i = 0; i < n; ++i) {
    K k = RandKey(hx::Coin(3, 4) ? few : cs);
    std::string q = hx::Pick(hx::Coin(3, 4) ? fw : ws), d = hx::Pick(hx::Coin(3, 4) ? fw : ws);
    float sc = hx::Pick(hx::Coin() ? fs : ss);
    int a = hx::Pick(is), b = hx::Pick(is);
    auto db = MkDBox(d, k);
    r.emplace_back(Ref(q, db), std::make_pair(q, DK(d, k)));
    h.emplace_back(Hyp(q, db, sc), std::make_pair(sc, std::make_pair(q, DK(d, k))));
    ir.emplace_back(IRef(a, b), std::make_pair(a, b));
    ih.emplace_back(IHyp(a, b, sc), std::make_tuple(sc, a, b));
    s.emplace_back(Event<std::string, std::string>(q, d), std::make_pair(q, d));
    hs.emplace_back(ScoredEvent<Event<std::string, std::string>>(Event<std::string, std::string>(q, d), sc),
                    std::make_tuple(sc, q, d));
  }
  Group(r, "shaped event");
  Group(h, "scored shaped event");
  Group(ir, "event<int>");
  Group(ih, "scored event<int>");
  Group(s, "event<string>");
  Group(hs, "scored event<string>");
  // accessors
  for (int i = 0; i < n; ++i) {
    hx::Case([&] { return "scored event parts " + hx::Str(h[i].first); });
    hx::Check(h[i].first.Query() == h[i].second.second.first, "Query() is the query given");
    hx::Check(h[i].first.Score() == h[i].second.first, "Score() is the score given");
    hx::Check(h[i].first.Location() == r[i].first.Location(), "Location() is the location given");
  }
}
static void Run() {
  {
    typedef std::tuple<uint32_t, uint32_t, uint32_t, uint32_t> K;
    std::vector<std::pair<BoundingBox<uint32_t>, K>> v;
    std::vector<std::pair<DBox, std::pair<std::string, K>>> d;
    for (int i = 0; i < 81; ++i) {
      K k(i % 3, i / 3 % 3, i / 9 % 3, i / 27);
      v.emplace_back(MkBox(k), k);
      if (i % 3 < 2 && i / 3 % 3 < 2 && i / 9 % 3 < 2 && i / 27 < 2)
        for (auto w : {"p1", "p10", "p2"}) d.emplace_back(MkDBox(w, k), std::make_pair(std::string(w), k));
    }
    Group(v, "box");
    Group(d, "document box");
  }
  while (hx::TimeLeft()) {
    Boxes<uint32_t>("box<uint32>", 24);
    Boxes<int32_t>("box<int32>", 24);
    Boxes<double>("box<double>", 16);
    Boxes<uint64_t>("box<uint64>", 16);
    Events(30);
  }
}
HX_MAIN(Run)
