// Bounded stand-in / replay harness: runs the real code of /repo on enumerated and
// random inputs and compares it with an independent oracle.  Usage: prog SEED SECONDS
#ifndef KWSV_HARNESS_COMMON_H_
#define KWSV_HARNESS_COMMON_H_
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace hx {
static unsigned long cases = 0, nontrivial = 0, samples = 0;
static std::function<std::string()> current;
static std::chrono::steady_clock::time_point t0;
static double budget = 20;

static void Finish(int code) {
  std::printf("CASES %lu\nNONTRIVIAL %lu\n", cases, nontrivial);
  std::fflush(stdout);
  _exit(code);
}

static void Fail(const std::string &what) {
  std::string in;
  if (current) in = current();
  std::printf("FAIL %s\nINPUT %s\n", what.c_str(), in.c_str());
  Finish(1);
}

static void OnSignal(int s) {
  const char *n = s == SIGALRM ? "call does not return (30 s)"
                  : s == SIGSEGV ? "invalid memory access" : "abort";
  std::signal(SIGABRT, SIG_DFL);
  std::signal(SIGSEGV, SIG_DFL);
  Fail(std::string("the code under test failed: ") + n);
}

static uint64_t rs;
static uint64_t Next() {
  rs += 0x9E3779B97F4A7C15ull;
  uint64_t z = rs;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
// uniform in [0, n)
static uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
static int64_t In(int64_t a, int64_t b) { return a + (int64_t)Below((uint64_t)(b - a) + 1); }
static bool Coin(int num = 1, int den = 2) { return (int)Below(den) < num; }
template <typename T> static const T &Pick(const std::vector<T> &v) { return v[Below(v.size())]; }

static double Elapsed() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}
static bool TimeLeft() { return Elapsed() < budget; }

// start of a case: how to describe its input
static void Case(std::function<std::string()> f, bool nontriv = true) {
  current = std::move(f);
  ++cases;
  if (nontriv) ++nontrivial;
  if ((cases & 63) == 1) alarm(30);
  if (samples < 3 && nontriv && (cases % 97 == 5 || cases < 3)) {
    ++samples;
    std::printf("SAMPLE %s\n", current().c_str());
  }
}

static void Check(bool ok, const std::string &what) {
  if (!ok) Fail(what);
}
template <typename A, typename B>
static void CheckEq(const A &got, const B &want, const char *what) {
  if (!(got == want)) {
    std::ostringstream o;
    o.precision(17);
    o << what << ": got " << got << ", expected " << want;
    Fail(o.str());
  }
}
static bool Near(double a, double b, double eps = 1e-9) {
  if (a == b) return true;
  return std::fabs(a - b) <= eps * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
static void CheckNear(double got, double want, const char *what, double eps = 1e-9) {
  if (!Near(got, want, eps)) {
    std::ostringstream o;
    o.precision(17);
    o << what << ": got " << got << ", expected " << want;
    Fail(o.str());
  }
}
template <typename T> static std::string Str(const T &t) {
  std::ostringstream o;
  o.precision(9);
  o << t;
  return o.str();
}

static bool may_exit = false;
static void OnExit() {
  if (!may_exit) Fail("the code under test ended the program");
}

static void Init(int argc, char **argv) {
  rs = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
  rs = rs * 7919 + 17;
  budget = argc > 2 ? std::atof(argv[2]) : 10;
  t0 = std::chrono::steady_clock::now();
  std::atexit(OnExit);
  std::signal(SIGSEGV, OnSignal);
  std::signal(SIGABRT, OnSignal);
  std::signal(SIGFPE, OnSignal);
  std::signal(SIGALRM, OnSignal);
}

struct Raised : std::exception {};
}  // namespace hx

#define HX_MAIN(body)                                                        \
  int main(int argc, char **argv) {                                          \
    hx::Init(argc, argv);                                                    \
    try {                                                                    \
      body();                                                                \
    } catch (const std::exception &e) {                                      \
      hx::Fail(std::string("unexpected exception: ") + e.what());            \
    }                                                                        \
    hx::Finish(0);                                                           \
  }
extern "C" const char *__asan_default_options() {
  return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0";
}
extern "C" const char *__ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }
#endif
