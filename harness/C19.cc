// C19: string-to-number mapping against a plain list of the strings seen.
#include "common.h"
#include <stdexcept>
#include "core/Event.h"
#include "core/ScoredEvent.h"
#include "mapper/IdentityMapper.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
using kws::core::Event;
using kws::core::ScoredEvent;
using namespace kws::mapper;
static std::vector<std::string> log_;
static std::string Show() {
  std::string s;
  for (const auto &x : log_) s += "'" + x + "' ";
  return s.size() > 500 ? "... " + s.substr(s.size() - 500) : s;
}
static std::string Word(int alphabet, int len) {
  std::string s;
  size_t n = hx::Below(len + 1);
  for (size_t i = 0; i < n; ++i) s += (char)(hx::Coin(1, 9) ? hx::Below(256) : 'a' + hx::Below(alphabet));
  return s;
}
struct Model {
  std::vector<std::string> seen;
  // number of the string, or -1 if the table is full
  long Get(const std::string &s, unsigned long long maxid) {
    for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == s) return (long)i;
    if (seen.size() > maxid) return -1;
    seen.push_back(s);
    return (long)seen.size() - 1;
  }
};
template <typename Int> static void Strings(size_t steps, int alphabet, int len) {
  log_.clear();
  StringToIntMapper<Int> m1;
  StringToIntMapper<Int> m2(m1);
  std::unordered_map<std::string, Int> t;
  StringToIntMapper<Int> m3(&t);
  const bool own = hx::Coin();
  Model md;
  hx::Case([] { return Show(); }, false);
  if (steps > 2) ++hx::nontrivial;
  for (size_t i = 0; i < steps; ++i) {
    std::string s = hx::Coin(1, 3) && !md.seen.empty() ? hx::Pick(md.seen) : Word(alphabet, len);
    log_.push_back(s);
    long want = md.Get(s, (unsigned long long)std::numeric_limits<Int>::max());
    StringToIntMapper<Int> &m = own ? m3 : hx::Coin() ? m1 : m2;
    long got = -1;
    try {
      got = (long)m(s);
    } catch (const std::range_error &) {
      got = -1;
    }
    hx::CheckEq(got, want, "number of a string (-1: range error)");
    if (own) hx::CheckEq(t.size(), md.seen.size(), "number of strings in the table");
  }
  // a new string is refused or gets the next number; all earlier ones keep theirs
  for (size_t i = 0; i < md.seen.size(); i += 1 + hx::Below(4))
    hx::CheckEq((long)(own ? m3 : m1)(md.seen[i]), (long)i, "number of an earlier string");
}
template <typename Int> static void Full() {
  log_.clear();
  std::unordered_map<std::string, Int> t;
  StringToIntMapper<Int> m(&t);
  const long n = (long)std::numeric_limits<Int>::max() + 1;
  hx::Case([] { return "integer type with all values used; last strings: " + Show(); }, false);
  for (long i = 0; i < n; ++i) {
    try {
      hx::CheckEq((long)m("w" + std::to_string(i)), i, "number of a new string");
    } catch (const std::range_error &) {
      hx::Fail("range error although " + std::to_string(i) + " of " + std::to_string(n) + " values are used");
    }
  }
  for (int r = 0; r < 3; ++r) {
    bool thrown = false;
    log_.push_back("x" + std::to_string(r));
    try { m(log_.back()); } catch (const std::range_error &) { thrown = true; }
    hx::Check(thrown, "a new string is accepted although all values are used");
    hx::CheckEq((long)t.size(), n, "strings in the table after the range error");
    long k = (long)hx::Below(n);
    hx::CheckEq((long)m("w" + std::to_string(k)), k, "number of a known string after the range error");
  }
}
typedef Event<std::string, std::string> E;
static void Events(size_t steps) {
  log_.clear();
  StringToIntMapper<int32_t> inner;
  StringEventToIntMapper<int32_t> own, shared(&inner), copy(own);
  ScoredEventMapper<StringEventToIntMapper<int32_t>> sm(&own), ss(&shared);
  std::vector<std::string> names;      // by number; strings of one event: either order
  const bool sh = hx::Coin();
  hx::Case([] { return Show(); }, false);
  if (steps > 1) ++hx::nontrivial;
  for (size_t i = 0; i < steps; ++i) {
    std::string q = Word(3, 2), l = Word(3, 2);
    if (hx::Coin(1, 4)) l = q;
    log_.push_back(q + "/" + l);
    int nq, nl;
    if (hx::Coin()) {
      float sc = (float)hx::In(-8, 8) / 4;
      ScoredEvent<E> se(q, l, sc);
      auto r = (sh ? ss : sm)(se);
      hx::CheckEq(r.Score(), sc, "score of a mapped event");
      nq = r.Query(), nl = r.Location();
    } else {
      auto r = sh ? shared(E(q, l)) : hx::Coin() ? own(E(q, l)) : copy(E(q, l));
      nq = r.Query(), nl = r.Location();
    }
    for (auto p : {std::make_pair(q, nq), std::make_pair(l, nl)}) {
      auto it = std::find(names.begin(), names.end(), p.first);
      if (it != names.end()) hx::CheckEq((long)p.second, (long)(it - names.begin()), "number of a known string");
    }
    size_t before = names.size();
    std::vector<std::pair<int, std::string>> fresh;
    for (auto p : {std::make_pair(nq, q), std::make_pair(nl, l)})
      if (std::find(names.begin(), names.begin() + before, p.second) == names.begin() + before) fresh.push_back(p);
    std::sort(fresh.begin(), fresh.end());
    fresh.erase(std::unique(fresh.begin(), fresh.end()), fresh.end());
    for (auto &p : fresh) {
      hx::CheckEq((long)p.first, (long)names.size(), "number of a new string");
      names.push_back(p.second);
    }
    if (i > 3 && hx::samples < 3) ++hx::samples, std::printf("SAMPLE %s\n", Show().c_str());
    if (sh) hx::CheckEq((long)inner(q), (long)nq, "events and strings share the table");
    E e(q, l);
    hx::Check(IdentityMapper<E>()(e) == e, "identity mapping");
    IdentityMapper<E> id;
    ScoredEvent<E> se(q, l, .25f);
    hx::Check(ScoredEventMapper<IdentityMapper<E>>(&id)(se) == se, "identity mapping of a scored event");
  }
}
static void All() {
  Full<int8_t>();
  Full<uint8_t>();
  Full<int16_t>();
  Full<uint16_t>();
  do {
    Strings<int32_t>(1 + hx::Below(40), 2, 3);
    Strings<int64_t>(1 + hx::Below(40), 3, 2);
    Strings<uint64_t>(1 + hx::Below(40), 3, 9);
    Strings<uint32_t>(1 + hx::Below(60), 26, 3);
    Strings<int8_t>(1 + hx::Below(400), 26, 3);
    Strings<uint8_t>(1 + hx::Below(700), 26, 4);
    Events(1 + hx::Below(20));
  } while (hx::TimeLeft());
}
HX_MAIN(All)
