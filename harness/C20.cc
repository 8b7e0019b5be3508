// C20: command lines against a plain reading of the grammar.
#include "common.h"
#include <sys/wait.h>
#include "cmd/Parser.h"
using kws::cmd::Parser;
enum Kind { B, I, S };
struct Value {
  Kind k;
  bool b = false;
  int32_t i = 0;
  std::string s;
  std::string Show() const { return k == B ? (b ? "true" : "false") : k == I ? std::to_string(i) : "'" + s + "'"; }
};
// what a value accepts (words used here are clear cases)
static bool Give(Value *v, const std::string &w, bool option) {
  if (v->k == S) { v->s = w; return true; }
  if (v->k == B) {
    if (w == "true" || w == "1" || (option && w.empty())) { v->b = true; return true; }
    if (w == "false" || w == "0") { v->b = false; return true; }
    return false;
  }
  if (w == "7" || w == "-3" || w == "0" || w == "1" || w == "123456") { v->i = std::atoi(w.c_str()); return true; }
  return false;
}
struct Line {
  std::vector<std::string> words;  // without the program name
  std::map<std::string, Value> opts;
  std::vector<Value> args, more;
  bool ok = false, help = false;
};
static void Expect(Line *l) {
  const auto &w = l->words;
  size_t i = 0;
  l->ok = false;
  while (i < w.size() && w[i].size() >= 2 && w[i][0] == '-') {
    const std::string o = w[i++];
    if (o == "--") break;
    if (o == "--help") { l->help = true; continue; }
    if (o[1] != '-') return;
    auto it = l->opts.find(o.substr(2));
    if (it == l->opts.end()) return;
    std::string v;
    if (it->second.k == B) {
      if (i < w.size() && (w[i].empty() || w[i][0] != '-')) v = w[i++];
    } else {
      if (i == w.size()) return;
      v = w[i++];
    }
    if (!Give(&it->second, v, true)) return;
  }
  l->ok = true;
  if (l->help) return;
  l->ok = false;
  const size_t left = w.size() - i;
  if (left < l->args.size() || left > l->args.size() + l->more.size()) return;
  for (size_t k = 0; k < left; ++k)
    if (!Give(k < l->args.size() ? &l->args[k] : &l->more[k - l->args.size()], w[i + k], false)) return;
  l->ok = true;
}
static std::string Show(const std::vector<std::string> &w) {
  std::string s;
  for (const auto &x : w) s += " '" + x + "'";
  return s;
}
static Value Fresh() {
  Value v;
  v.k = (Kind)hx::Below(3);
  v.b = hx::Coin();
  v.i = -99;
  v.s = "old";
  return v;
}
static std::string Describe(const Line &l) {
  static const char *n[] = {"bool", "int", "string"};
  std::string s = "options:";
  for (const auto &o : l.opts) s += " --" + o.first + "(" + n[o.second.k] + ")";
  s += "; arguments:";
  for (const auto &v : l.args) s += std::string(" ") + n[v.k];
  s += "; optional:";
  for (const auto &v : l.more) s += std::string(" ") + n[v.k];
  return s + "; words:" + Show(l.words);
}
static std::vector<std::string> vocab = {"", "-", "--", "-x", "-3", "0", "1", "7", "true", "false", "word", "a b", "123456",
  "--a", "--b", "--c", "--", "--a", "--b", "-a", "--ab", "--=", "--zz", "---a", "a", "--help"};
template <typename F> static void Register(Value *v, F f) {
  if (v->k == B) f(&v->b);
  else if (v->k == I) f(&v->i);
  else f(&v->s);
}
static void One() {
  Line l;
  const bool helped = hx::Coin(1, 40);
  Line real;
  Parser p("prog", hx::Coin() ? "text" : "");
  static const std::vector<std::string> names = {"a", "b", "c", "ab", "", "-a", "help", "x y", "d", "="};
  // options first: addresses in a map are stable
  const size_t no = hx::Below(7);
  for (size_t k = 0; k < no; ++k) {
    const std::string n = hx::Pick(names);
    Value v = Fresh();
    const bool expect = n != "help" && !l.opts.count(n);
    hx::Case([=] { return Describe(l) + "; then --" + n + " is registered"; });
    bool got = false;
    if (expect) {
      real.opts[n] = v;
      Register(&real.opts[n], [&](auto *x) { got = p.RegisterOption(n, "", x); });
      l.opts[n] = v;
    } else {
      static Value other;
      other = v;
      Register(&other, [&](auto *x) { got = p.RegisterOption(n, "", x); });
    }
    hx::CheckEq(got, expect, "name can be registered");
  }
  const size_t na = hx::Below(4), nm = hx::Below(3);
  for (size_t k = 0; k < na; ++k) l.args.push_back(Fresh());
  for (size_t k = 0; k < nm; ++k) l.more.push_back(Fresh());
  real.args = l.args;
  real.more = l.more;
  for (size_t k = 0; k < std::max(na, nm); ++k) {
    if (k < na) Register(&real.args[k], [&](auto *x) { p.RegisterArgument("m" + std::to_string(k), "", x); });
    if (k < nm) Register(&real.more[k], [&](auto *x) { p.RegisterOptArgument("o" + std::to_string(k), "", x); });
  }
  // words: mostly well-formed, sometimes any
  if (hx::Coin(2, 3)) {
    for (const auto &o : l.opts)
      for (size_t r = hx::Below(3); r > 0; --r) {
        l.words.push_back("--" + o.first);
        const Kind k = o.second.k;
        if (k == B && hx::Coin()) continue;
        l.words.push_back(k == B ? (hx::Coin() ? "false" : "1") : k == I ? (hx::Coin() ? "-3" : "123456")
                                 : hx::Pick(std::vector<std::string>{"", "--a", "-", "x", "--"}));
      }
    if (hx::Coin(1, 3)) l.words.push_back("--");
    for (size_t k = 0; k < na + nm; ++k) {
      if (k >= na && hx::Coin(1, 4)) break;
      const Kind t = k < na ? l.args[k].k : l.more[k - na].k;
      l.words.push_back(t == B ? (hx::Coin() ? "true" : "0") : t == I ? (hx::Coin() ? "7" : "-3")
                               : hx::Pick(std::vector<std::string>{"w", "-", "", "a=b", "--a"}));
    }
    if (hx::Coin(1, 4)) {
      const size_t at = hx::Below(l.words.size() + 1);
      if (at < l.words.size() && hx::Coin()) l.words.erase(l.words.begin() + at);
      else l.words.insert(l.words.begin() + at, hx::Pick(vocab));
    }
  } else {
    for (size_t k = hx::Below(7); k > 0; --k) l.words.push_back(hx::Pick(vocab));
  }
  const Line in = l;
  Expect(&l);
  hx::Case([=] { return Describe(in); }, !in.words.empty());
  std::vector<const char *> argv = {"prog"};
  for (const auto &w : l.words) argv.push_back(w.c_str());
  std::ostringstream err;
  if (l.ok && l.help) {
    if (!helped) return;
    std::fflush(stdout);
    const pid_t c = ::fork();
    if (c == 0) {
      hx::may_exit = true;
      std::cerr.rdbuf(err.rdbuf());
      p.Parse((int)argv.size(), argv.data());
      ::_exit(9);
    }
    int st = 0;
    ::waitpid(c, &st, 0);
    hx::Check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "asking for help does not end the program with status 0");
    return;
  }
  std::streambuf *old = std::cerr.rdbuf(err.rdbuf());
  bool got = false;
  try {
    got = p.Parse((int)argv.size(), argv.data());
  } catch (...) {
    std::cerr.rdbuf(old);
    throw;
  }
  std::cerr.rdbuf(old);
  hx::CheckEq(got, l.ok, "parsing succeeds");
  if (!got) {
    hx::Check(!err.str().empty(), "failure without an error message");
    return;
  }
  for (const auto &o : l.opts) hx::CheckEq(real.opts[o.first].Show(), o.second.Show(), ("value of --" + o.first).c_str());
  for (size_t k = 0; k < na; ++k) hx::CheckEq(real.args[k].Show(), l.args[k].Show(), "value of an argument");
  for (size_t k = 0; k < nm; ++k) hx::CheckEq(real.more[k].Show(), l.more[k].Show(), "value of an optional argument");
}
static void All() {
  for (int i = 0; i < 20000 || (hx::TimeLeft() && i < 20000000); ++i) One();
}
HX_MAIN(All)
