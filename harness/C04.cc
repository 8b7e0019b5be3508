#include "types.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/EventSet.h"
static std::string Show(const Ref &r) {
  auto &l = r.Location();
  std::ostringstream o;
  o << r.Query() << "@" << l.document << "(" << l.x << "," << l.y << "," << l.w << "," << l.h << ")";
  return o.str();
}
static std::string Show(const IRef &r) { return hx::Str(r.Query()) + "@" + hx::Str(r.Location()); }
static bool Same(const Ref &a, const Ref &b) {
  auto &l = a.Location(), &k = b.Location();
  return a.Query() == b.Query() && l.document == k.document && l.x == k.x && l.y == k.y && l.w == k.w && l.h == k.h;
}
static bool Same(const IRef &a, const IRef &b) { return a.Query() == b.Query() && a.Location() == b.Location(); }
static int64_t Common(const Ref &a, const Ref &b) {
  auto &l = a.Location(), &k = b.Location();
  int64_t dx = std::min<int64_t>((int64_t)l.x + l.w, (int64_t)k.x + k.w) - std::max<int64_t>(l.x, k.x);
  int64_t dy = std::min<int64_t>((int64_t)l.y + l.h, (int64_t)k.y + k.h) - std::max<int64_t>(l.y, k.y);
  return a.Query() == b.Query() && l.document == k.document && dx > 0 && dy > 0 ? dx * dy : 0;
}
static std::tuple<std::string, std::string, int64_t, int64_t, int64_t, int64_t> Key(const Ref &a) {
  auto &l = a.Location();
  return std::make_tuple(a.Query(), l.document, (int64_t)l.x, (int64_t)l.y, (int64_t)l.w, (int64_t)l.h);
}
static std::vector<Ref> Want(const std::vector<Ref> &held, const Ref &p) {
  std::vector<Ref> r;
  for (auto &x : held) if (Common(x, p) > 0) r.push_back(x);
  for (size_t i = 0; i < r.size(); ++i)
    for (size_t j = r.size() - 1; j > i; --j) {
      int64_t a = Common(r[j], p), b = Common(r[j - 1], p);
      if (a > b || (a == b && Key(r[j - 1]) < Key(r[j]))) std::swap(r[j], r[j - 1]);
    }
  return r;
}
static std::vector<IRef> Want(const std::vector<IRef> &held, const IRef &p) {
  std::vector<IRef> r;
  for (auto &x : held) if (Same(x, p)) r.push_back(x);
  return r;
}
static Ref Rand(const Ref *) {
  static const std::vector<std::string> qs = {"a", "b", "", "ab"}, ds = {"d", "e", ""};
  uint32_t m = hx::Coin(1, 5) ? 1000 : 4;
  return Ref(hx::Coin(2, 3) ? "a" : hx::Pick(qs), DBox(hx::Coin(2, 3) ? "d" : hx::Pick(ds), hx::Below(m), hx::Below(m), hx::Below(m), hx::Below(m)));
}
static IRef Rand(const IRef *) { return IRef((int)hx::In(-2, 2), (int)hx::In(-2, 2)); }

template <typename E> static std::string ShowL(const std::vector<E> &v) {
  std::string s = "[";
  for (auto &x : v) s += (s.size() > 1 ? " " : "") + Show(x);
  return s + "]";
}
template <typename E> struct Run {
  std::vector<std::string> log;
  std::vector<E> held;
  size_t Find(const E &e) {
    for (size_t i = 0; i < held.size(); ++i) if (Same(held[i], e)) return i;
    return held.size();
  }
  void Put(const E &e) { if (Find(e) == held.size()) held.push_back(e); }
  void Probe(const EventSet<E> &s, const E &p) {
    log.push_back("find " + Show(p));
    auto got = s.FindOverlapping(p);
    std::vector<E> g(got.begin(), got.end()), w = Want(held, p);
    bool ok = g.size() == w.size();
    for (size_t i = 0; ok && i < g.size(); ++i) ok = Same(g[i], w[i]);
    if (!ok) hx::Fail("FindOverlapping(" + Show(p) + "): got " + ShowL(g) + ", expected " + ShowL(w));
    hx::CheckEq(s.Size(), held.size(), "Size after retrieval");
    log.pop_back();
  }
  void Go(size_t steps) {
    auto text = [this] {
      std::string t;
      for (auto &l : log) t += l + "; ";
      return t;
    };
    unsigned long shown = hx::samples;
    hx::samples = 3;
    hx::Case(text, steps > 3);
    hx::samples = shown;
    std::unique_ptr<EventSet<E>> s;
    if (hx::Coin(1, 3)) {
      std::vector<E> v;
      size_t n = hx::Below(6);
      for (size_t i = 0; i < n; ++i) v.push_back(hx::Coin(1, 4) && i ? v[hx::Below(i)] : Rand((E *)nullptr));
      for (auto &e : v) { Put(e); log.push_back("range " + Show(e)); }
      s.reset(new EventSet<E>(v.begin(), v.end()));
    } else
      s.reset(new EventSet<E>());
    hx::CheckEq(s->Size(), held.size(), "Size after construction");
    for (size_t k = 0; k < steps; ++k) {
      E e = held.size() && hx::Coin(2, 5) ? held[hx::Below(held.size())] : Rand((E *)nullptr);
      int what = (int)hx::Below(10);
      if (what < 6) { log.push_back("insert " + Show(e)); s->Insert(e); Put(e); }
      else if (what < 9 || hx::Coin(3, 4)) {
        log.push_back("remove " + Show(e));
        s->Remove(e);
        size_t i = Find(e);
        if (i < held.size()) held.erase(held.begin() + i);
      } else { log.push_back("clear"); s->Clear(); held.clear(); }
      hx::CheckEq(s->Size(), held.size(), "Size");
      Probe(*s, e);
      Probe(*s, Rand((E *)nullptr));
    }
    for (auto &e : std::vector<E>(held)) Probe(*s, e);
    if (shown < 3 && steps > 3) {
      ++hx::samples;
      std::printf("SAMPLE %s\n", text().c_str());
    }
  }
};
static void Body() {
  while (hx::TimeLeft()) {
    Run<Ref>().Go(hx::Below(hx::Coin(1, 10) ? 60 : 12));
    Run<IRef>().Go(hx::Below(12));
  }
}
HX_MAIN(Body)
