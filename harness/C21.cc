#include "common.h"
#include "cmd/Argument.h"
#include "cmd/Option.h"
using kws::cmd::Argument;
using kws::cmd::BaseOption;
using kws::cmd::Option;
static bool AllDigits(const std::string &s) {
  if (s.empty()) return false;
  for (char c : s) if (c < '0' || c > '9') return false;
  return true;
}
// the whole text is a whole number; value saturated far outside every type
static bool Whole(const std::string &s, bool *neg, __int128 *v) {
  size_t p = 0;
  *neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) { *neg = s[0] == '-'; p = 1; }
  if (!AllDigits(s.substr(p))) return false;
  __int128 x = 0;
  for (; p < s.size(); ++p) { x = x * 10 + (s[p] - '0'); if (x > ((__int128)1 << 100)) x = (__int128)1 << 100; }
  *v = *neg ? -x : x;
  return true;
}
static bool Decimal(const std::string &s) {
  size_t p = 0, d = 0, n = s.size();
  if (p < n && (s[p] == '-' || s[p] == '+')) ++p;
  while (p < n && isdigit((unsigned char)s[p])) ++p, ++d;
  if (p < n && s[p] == '.') { ++p; while (p < n && isdigit((unsigned char)s[p])) ++p, ++d; }
  if (!d) return false;
  if (p < n && (s[p] == 'e' || s[p] == 'E')) {
    ++p;
    if (p < n && (s[p] == '-' || s[p] == '+')) ++p;
    size_t e = 0;
    while (p < n && isdigit((unsigned char)s[p])) ++p, ++e;
    if (!e) return false;
  }
  return p == n;
}
template <typename T> struct Want {   // whole numbers
  static bool Get(const std::string &s, T *v) {
    bool neg; __int128 x;
    if (!Whole(s, &neg, &x)) return false;
    if (x < (__int128)std::numeric_limits<T>::min() || x > (__int128)std::numeric_limits<T>::max()) return false;
    *v = (T)x;
    return true;
  }
};
template <> struct Want<double> {
  static bool Get(const std::string &s, double *v) {
    if (!Decimal(s)) return false;
    *v = std::strtod(s.c_str(), nullptr);
    return !std::isinf(*v);
  }
};
template <> struct Want<float> {
  static bool Get(const std::string &s, float *v) {
    if (!Decimal(s)) return false;
    *v = std::strtof(s.c_str(), nullptr);
    return !std::isinf(*v);
  }
};
static std::string Digits(size_t n) {
  std::string s;
  while (n--) s += (char)('0' + hx::Below(10));
  return s;
}
static std::string Text() {
  static const std::vector<std::string> fixed = {
    "", " ", "0", "1", "7", "+5", "-3", "12", " 12", "12 ", "\t3", "3\n", "1 2", "12x", "x12", "1,5", "--1", "+-1", "-",
    "+", ".", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
    "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999",
    "100000000000000000000000000000000000000000", "0x10", "010", "00012", "1e3", "1E3", "1e", "1e+", "1e-2", "1.5", "1.5 ",
    " 1.5", "1.5.2", "1..5", ".5", "5.", "-.25", "1e400", "-1e400", "1e39", "3.5e38", "true", "false", "True", "FALSE", "yes",
    "no", "on", "t", "tru", "truee", "true ", " true", "false ", "01", "10", "11", "00", "0.0", "nan", "inf", "infinity", "-inf",
    "a b c", "--name", "x=1", "\xc3\xa9", "0.05x", "0.05", "1f", "1L", "1u", "'1'", "\"1\""};
  switch (hx::Below(6)) {
    case 0: case 1: return hx::Pick(fixed);
    case 2: return (hx::Coin(1, 3) ? "-" : "") + Digits((size_t)hx::In(1, 22));
    case 3: { std::string s = (hx::Coin(1, 3) ? "-" : "") + Digits((size_t)hx::In(1, 5)) + "." + Digits((size_t)hx::Below(6));
      if (hx::Coin(1, 3)) s += "e" + std::string(hx::Coin() ? "-" : "") + Digits(1);
      return s; }
    case 4: { std::string s = hx::Pick(fixed);
      if (hx::Coin() && !s.empty()) s.erase(hx::Below(s.size()), 1);
      else s.insert(hx::Below(s.size() + 1), 1, "0 1-+.ex\n\tt"[hx::Below(11)]);
      return s; }
    default: { std::string s; size_t n = (size_t)hx::Below(5);
      while (n--) s += "0123456789-+.e xtruefals\n"[hx::Below(25)];
      return s; }
  }
}
// texts on which the statement leaves room ("-0" for an unsigned type, a NUL in a word)
static bool Unclear(const std::string &s, bool uns) {
  if (uns && s.size() > 1 && s[0] == '-' && s.find_first_not_of("0", 1) == std::string::npos) return true;
  return s.find('\0') != std::string::npos;
}
template <typename T> static void Num(const char *type, bool arg, const std::string &s) {
  if (Unclear(s, std::is_unsigned<T>::value)) return;
  hx::Case([&] { return std::string(arg ? "argument" : "option") + " of type " + type + ", text \"" + s + "\""; });
  T v = (T)7, w = (T)7;
  std::unique_ptr<BaseOption> o(arg ? (BaseOption *)new Argument<T>("n", "h", &v) : new Option<T>("--n", "h", &v));
  bool want = Want<T>::Get(s, &w), got = o->Parse(s);
  hx::CheckEq(got, want, "accepted");
  if (want) hx::CheckEq(v, w, "stored value");
  // a later value replaces the earlier one
  hx::CheckEq(o->Parse("42"), true, "second value accepted");
  hx::CheckEq(v, (T)42, "second value stored");
}
static void Bool(bool arg, const std::string &s) {
  if (Unclear(s, false)) return;
  bool v = hx::Coin(), was = v;
  hx::Case([&] { return std::string(arg ? "boolean argument" : "boolean option") + " with value " + (was ? "true" : "false") + ", text \"" + s + "\""; });
  std::unique_ptr<BaseOption> o(arg ? (BaseOption *)new Argument<bool>("n", "h", &v) : new Option<bool>("--n", "h", &v));
  bool yes = s == "true" || s == "1" || (!arg && s.empty()), no = s == "false" || s == "0";
  hx::CheckEq(o->Parse(s), yes || no, "accepted");
  hx::CheckEq(v, yes ? true : no ? false : was, "value afterwards");
}
static void String(bool arg, const std::string &s) {
  if (Unclear(s, false)) return;
  hx::Case([&] { return std::string(arg ? "string argument" : "string option") + ", text \"" + s + "\""; });
  std::string v = "before";
  std::unique_ptr<BaseOption> o(arg ? (BaseOption *)new Argument<std::string>("n", "h", &v) : new Option<std::string>("--n", "h", &v));
  hx::CheckEq(o->Parse(s), true, "accepted");
  hx::CheckEq(v, s, "stored text");
}
static void All() {
  while (hx::TimeLeft()) {
    std::string s = Text();
    bool a = hx::Coin();
    Num<int32_t>("int32", a, s);
    Num<size_t>("size_t", a, s);
    Num<double>("double", a, s);
    Num<float>("float", a, s);
    Bool(a, s);
    String(a, s);
    if (hx::Coin(1, 4)) String(a, s + "\n" + Text() + " " + Text());
  }
}
HX_MAIN(All)
