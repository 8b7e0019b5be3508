#include "types.h"
#include <fstream>
#include <sys/stat.h>
typedef std::vector<double> Ds;
static std::string Dir() { const char *d = std::getenv("HX_DIR"); return d ? d : "/tmp"; }
static Ds Increasing(size_t n, bool strict, double lo = 0) {
  Ds x;
  double c = lo;
  for (size_t i = 0; i < n; ++i) {
    c += (strict ? 1 : (int)hx::Below(3)) * (double)hx::In(1, 4) / 16;
    x.push_back(c);
  }
  return x;
}
static void Sample(const Ds &sx, const Ds &sy, const Ds &dx, bool lin) {
  hx::Case([&] { return std::string(lin ? "linear" : "step") + " x=" + ShowV(sx) + " y=" + ShowV(sy) + " points=" + ShowV(dx); },
           sx.size() > 1 && !dx.empty());
  Ds got(hx::Below(4), 9.0);
  SampleCurveAtGivenPoints(sx, sy, dx, &got, lin);
  hx::CheckEq(got.size(), dx.size(), "number of resampled values");
  for (size_t i = 0; i < dx.size(); ++i) {
    size_t j = 0;
    while (j < sx.size() && sx[j] < dx[i]) ++j;
    double w;
    if (j == sx.size()) w = 0;
    else if (!lin || j == 0) w = sy[j];
    else {
      w = sy[j - 1] + (sy[j] - sy[j - 1]) * ((dx[i] - sx[j - 1]) / (sx[j] - sx[j - 1]));
      hx::Check(got[i] >= std::min(sy[j - 1], sy[j]) - 1e-12 && got[i] <= std::max(sy[j - 1], sy[j]) + 1e-12,
                "resampled value outside the neighbouring ordinates");
    }
    hx::CheckNear(got[i], w, "resampled value");
  }
}
static void Grid(size_t n) {
  hx::Case([&] { return "grid of " + hx::Str(n); }, n > 1);
  Ds x(hx::Below(3), 5.0);
  GetEvenlyDistributedPoints01Interval(n, &x);
  hx::CheckEq(x.size(), n > 1 ? n : (size_t)0, "grid size");
  for (size_t k = 0; k < x.size(); ++k) hx::CheckNear(x[k], (double)k / (double)(n - 1), "grid point", 1e-15);
}
static bool Exists(const std::string &p) { struct stat s; return ::stat(p.c_str(), &s) == 0; }
static void Export(const Ds &x, const Ds &y) {
  hx::Case([&] { return "export x=" + ShowV(x) + " y=" + ShowV(y); }, x.size() > 1);
  static const std::string f = Dir() + "/curve.txt";
  if (hx::Coin()) { std::ofstream o(f); o << "old content\nof the file\nis longer than one line\n"; }
  else ::unlink(f.c_str());
  bool had = Exists(f), thrown = false;
  try { WriteCurveToFile(f, x, y); } catch (const std::invalid_argument &) { thrown = true; }
  hx::CheckEq(thrown, x.size() != y.size(), "different lengths rejected");
  if (thrown) { hx::CheckEq(Exists(f), had, "file written although rejected");
    if (had) { std::ifstream i(f); std::string l; std::getline(i, l); hx::CheckEq(l, std::string("old content"), "file changed although rejected"); }
    return; }
  std::string want;
  char b[100];
  for (size_t k = 0; k < x.size(); ++k) { std::snprintf(b, sizeof b, "%.6e %.6e\n", x[k], y[k]); want += b; }
  std::ifstream in(f);
  std::stringstream s;
  s << in.rdbuf();
  hx::CheckEq(s.str(), want, "exported text");
}
static void Body() {
  { hx::Case([] { return std::string("export to an empty name"); });
    bool t = false;
    try { WriteCurveToFile("", Ds{1}, Ds{1}); } catch (const std::invalid_argument &) { t = true; }
    hx::Check(t, "empty file name accepted"); }
  for (size_t n = 0; n < 40; ++n) Grid(n);
  Grid(1000); Grid(10000);
  while (hx::TimeLeft()) {
    for (int r = 0; r < 200; ++r) {
      Ds sx = Increasing(hx::Below(8), hx::Coin(), (double)hx::In(-1, 1) / 4), sy;
      if (hx::Coin(1, 6) && sx.size() > 2) std::swap(sx[0], sx[2]);
      for (size_t i = 0; i < sx.size(); ++i) sy.push_back((double)hx::In(0, 16) / 16);
      Ds dx = Increasing(hx::Below(12), false, -.25);
      if (hx::Coin(1, 3)) GetEvenlyDistributedPoints01Interval((size_t)hx::Below(9), &dx);
      Sample(sx, sy, dx, hx::Coin());
    }
    Ds x, y;
    size_t n = hx::Below(7);
    for (size_t i = 0; i < n; ++i) { x.push_back((double)hx::In(-50, 50) / 7); y.push_back((double)hx::In(0, 9) * (hx::Coin() ? 1e-9 : 1e12) / 3); }
    if (hx::Coin(1, 5)) y.push_back(1); else if (hx::Coin(1, 6) && n) y.pop_back();
    Export(x, y);
  }
}
HX_MAIN(Body)
