// C18: interpolation curves pass through their control points, sample by sample.
#include "mc.h"
#include <Tools/include/Tools.h>
#include <Types/include/Effect.h>
#include <cmath>
#include <functional>
#include <sstream>

namespace tl = haptics::tools;
using Points = std::vector<std::pair<int, double>>;

namespace {

std::string show(const Points &p) {
  std::ostringstream o;
  for (auto &x : p) o << " (" << x.first << "," << x.second << ")";
  return o.str();
}
std::string show(const std::vector<double> &v) {
  std::ostringstream o;
  o.precision(10);
  for (size_t i = 0; i < v.size() && i < 40; i++) o << " " << v[i];
  return o.str();
}
bool near(double a, double b, double eps = 1e-6) { return std::fabs(a - b) <= eps; } // false for NaN

const std::vector<double> kValues = {0, 1, -1, 0.5, -0.25};

// The control points: first at 0, then an increasing choice of instants.
Points instants(mc::Run &r, int last, int minPoints) {
  Points p = {{0, 0}};
  int n = 1 + r.choose(last); // the last instant
  for (int t = 1; t < n; t++)
    if (p.size() < 5 && r.flip()) p.push_back({t, 0});
  p.push_back({n, 0});
  (void)minPoints;
  return p;
}

void values(mc::Run &r, Points &p) {
  for (auto &x : p) x.second = r.pick(kValues);
}

void through(mc::Run &r, const char *name, const Points &p, const std::vector<double> &y, size_t upto) {
  std::string k = name;
  REQUIRE(r, y.size() == static_cast<size_t>(p[upto - 1].first) + 1, k + ":length",
          k + " gives " + std::to_string(y.size()) + " samples:" + show(p));
  for (double v : y) REQUIRE(r, std::isfinite(v), k + ":finite", k + " is not finite:" + show(p) + " ->" + show(y));
  bool constant = true;
  for (size_t i = 0; i < upto; i++) constant = constant && p[i].second == p[0].second;
  if (constant)
    for (double v : y) REQUIRE(r, near(v, p[0].second), k + ":constant", k + " of a constant:" + show(p) + " ->" + show(y));
}
void knots(mc::Run &r, const char *name, const Points &p, const std::vector<double> &y) {
  std::string k = name;
  for (auto &x : p)
    REQUIRE(r, near(y.at(static_cast<size_t>(x.first)), x.second), k + ":knot",
            k + " misses the point at " + std::to_string(x.first) + ":" + show(p) + " ->" + show(y));
}
void hull(mc::Run &r, const char *name, const Points &p, const std::vector<double> &y) {
  double lo = 1e9, hi = -1e9;
  for (auto &x : p) lo = std::min(lo, x.second), hi = std::max(hi, x.second);
  for (double v : y) REQUIRE(r, v >= lo - 1e-6 && v <= hi + 1e-6, std::string(name) + ":range", std::string(name) + " leaves the range:" + show(p) + " ->" + show(y));
}
void segments(mc::Run &r, const char *name, const Points &p, const std::vector<double> &y, bool linear) {
  std::string k = name;
  for (size_t s = 0; s + 1 < p.size(); s++) {
    double a = p[s].second, b = p[s + 1].second;
    int t0 = p[s].first, t1 = p[s + 1].first;
    for (int t = t0; t <= t1; t++) {
      double v = y.at(static_cast<size_t>(t));
      REQUIRE(r, v >= std::min(a, b) - 1e-6 && v <= std::max(a, b) + 1e-6, k + ":range", k + " leaves the range of its two points:" + show(p) + " ->" + show(y));
      double u = static_cast<double>(t - t0) / (t1 - t0);
      double want = linear ? a + (b - a) * u : a + (b - a) * u * u * (3 - 2 * u);
      REQUIRE(r, near(v, want), k + ":shape", k + " at " + std::to_string(t) + ":" + show(p) + " ->" + show(y));
    }
  }
}

bool collinear(const Points &p) {
  for (auto &x : p)
    if (!near(x.second, p[0].second + (p.back().second - p[0].second) * x.first / p.back().first, 1e-12)) return false;
  return true;
}

void bezierShape(mc::Run &r, const Points &p, const std::vector<double> &y, size_t used) {
  for (size_t s = 0; s + 2 < used; s += 2) {
    int a = p[s].first, b = p[s + 1].first, c = p[s + 2].first;
    for (int t = a; t < c; t++) { // the parameter whose abscissa is t, by bisection
      double lo = 0, hi = 1;
      for (int i = 0; i < 60; i++) {
        double u = (lo + hi) / 2;
        double x = (1 - u) * (1 - u) * a + 2 * (1 - u) * u * b + u * u * c;
        (x < t ? lo : hi) = u;
      }
      double u = (lo + hi) / 2;
      double want = (1 - u) * (1 - u) * p[s].second + 2 * (1 - u) * u * p[s + 1].second + u * u * p[s + 2].second;
      REQUIRE(r, near(y.at(static_cast<size_t>(t)), want, 1e-5), "bezier:shape", "bezier at " + std::to_string(t) + ":" + show(p) + " ->" + show(y));
    }
  }
}

// The natural cubic spline, from its moments (second derivatives at the points).
std::vector<double> naturalSpline(const Points &p) {
  const size_t n = p.size();
  std::vector<std::vector<double>> a(n, std::vector<double>(n + 1, 0));
  a[0][0] = a[n - 1][n - 1] = 1;
  for (size_t i = 1; i + 1 < n; i++) {
    const double h0 = p[i].first - p[i - 1].first, h1 = p[i + 1].first - p[i].first;
    a[i][i - 1] = h0;
    a[i][i] = 2 * (h0 + h1);
    a[i][i + 1] = h1;
    a[i][n] = 6 * ((p[i + 1].second - p[i].second) / h1 - (p[i].second - p[i - 1].second) / h0);
  }
  for (size_t i = 0; i < n; i++) // diagonally dominant: no pivoting needed
    for (size_t j = 0; j < n; j++)
      if (j != i) {
        const double q = a[j][i] / a[i][i];
        for (size_t k = 0; k <= n; k++) a[j][k] -= q * a[i][k];
      }
  std::vector<double> y;
  for (int t = 0; t <= p.back().first; t++) {
    size_t s = 0;
    while (s + 2 < n && p[s + 1].first < t) s++;
    const double h = p[s + 1].first - p[s].first, l = t - p[s].first, q = p[s + 1].first - t;
    const double m0 = a[s][n] / a[s][s], m1 = a[s + 1][n] / a[s + 1][s + 1];
    y.push_back(m0 * q * q * q / (6 * h) + m1 * l * l * l / (6 * h) + (p[s].second / h - m0 * h / 6) * q + (p[s + 1].second / h - m1 * h / 6) * l);
  }
  return y;
}
// Akima's spline: Hermite pieces with slopes weighted by the changes of slope on the other side.
std::vector<double> akima(const Points &p) {
  const int n = static_cast<int>(p.size());
  auto chord = [&](int i) { return (p[i + 1].second - p[i].second) / (p[i + 1].first - p[i].first); };
  std::function<double(int)> m = [&](int i) -> double { // chords, continued linearly past both ends
    if (i < 0) return chord(0) + i * (chord(1) - chord(0));
    if (i > n - 2) return chord(n - 2) + (i - (n - 2)) * (chord(n - 2) - chord(n - 3));
    return chord(i);
  };
  std::vector<double> w1, w2, slope;
  double top = 0;
  for (int i = 0; i < n; i++) {
    w1.push_back(std::fabs(m(i + 1) - m(i)));
    w2.push_back(std::fabs(m(i - 1) - m(i - 2)));
    top = std::max(top, w1[i] + w2[i]);
  }
  for (int i = 0; i < n; i++)
    slope.push_back(w1[i] + w2[i] > 1e-8 * top ? (w1[i] * m(i - 1) + w2[i] * m(i)) / (w1[i] + w2[i]) : m(i - 1));
  std::vector<double> y;
  for (int t = 0; t <= p.back().first; t++) {
    int s = 0;
    while (s + 2 < n && p[s + 1].first < t) s++;
    const double h = p[s + 1].first - p[s].first, u = (t - p[s].first) / h;
    y.push_back((1 + 2 * u) * (1 - u) * (1 - u) * p[s].second + u * u * (3 - 2 * u) * p[s + 1].second + h * u * (1 - u) * (1 - u) * slope[s] - h * u * u * (1 - u) * slope[s + 1]);
  }
  return y;
}
// The clamped quadratic B-spline; the code looks for the parameter of an instant in steps of 1/(10 last).
void bsplineShape(mc::Run &r, const Points &p, const std::vector<double> &y) {
  const int pieces = static_cast<int>(p.size()) - 2;
  auto at = [&](double u, bool time) { // u in [0, pieces]
    auto v = [&](int i) { return time ? static_cast<double>(p[i].first) : p[i].second; };
    const int i = std::min(static_cast<int>(u), pieces - 1);
    const double x = u - i;
    // control polygon corners of the piece, as a quadratic Bezier segment
    const double a = i == 0 ? v(0) : (v(i) + v(i + 1)) / 2, c = i == pieces - 1 ? v(i + 2) : (v(i + 1) + v(i + 2)) / 2;
    return (1 - x) * (1 - x) * a + 2 * x * (1 - x) * v(i + 1) + x * x * c;
  };
  double step = 0;
  for (size_t i = 0; i + 1 < p.size(); i++) step = std::max(step, std::fabs(p[i + 1].second - p[i].second));
  const double tol = 1.05 * 2 * pieces * step / (10.0 * p.back().first) + 1e-6;
  for (int t = 1; t < p.back().first; t++) {
    double lo = 0, hi = pieces;
    for (int i = 0; i < 60; i++) {
      const double u = (lo + hi) / 2;
      (at(u, true) < t ? lo : hi) = u;
    }
    const double want = at((lo + hi) / 2, false);
    REQUIRE(r, near(y.at(static_cast<size_t>(t)), want, tol), "bspline:shape", "bspline at " + std::to_string(t) + " is not " + std::to_string(want) + ":" + show(p) + " ->" + show(y));
  }
}
void same(mc::Run &r, const char *name, const Points &p, const std::vector<double> &y, const std::vector<double> &want) {
  for (size_t t = 0; t < y.size(); t++)
    REQUIRE(r, near(y[t], want.at(t), 1e-6), std::string(name) + ":shape", std::string(name) + " at " + std::to_string(t) + " is not " + std::to_string(want[t]) + ":" + show(p) + " ->" + show(y));
}

void all(mc::Run &r, const Points &p) {
  const Points in = p;
  auto run = [&](const char *name, const std::function<std::vector<double>(const Points &)> &f) {
    r.tag(name);
    auto y = f(p);
    r.step();
    r.state(mc::hashBytes(y.data(), y.size() * sizeof(double)));
    REQUIRE(r, in == p, "input", std::string(name) + " changed its input");
    return y;
  };
  auto n = p.size();
  {
    auto y = run("linear", [](const Points &q) { return tl::linearInterpolation2(q); });
    through(r, "linear", p, y, n);
    knots(r, "linear", p, y);
    segments(r, "linear", p, y, true);
    auto z = run("codec-linear", [](const Points &q) { return tl::interpolationCodec(q, haptics::types::CurveType::Linear); });
    through(r, "codec-linear", p, z, n);
    knots(r, "codec-linear", p, z);
    segments(r, "codec-linear", p, z, true);
  }
  {
    auto y = run("cubic", [](const Points &q) { return tl::cubicInterpolation2(q); });
    through(r, "cubic", p, y, n);
    knots(r, "cubic", p, y);
    segments(r, "cubic", p, y, false);
    auto z = run("codec-cubic", [](const Points &q) { return tl::interpolationCodec(q, haptics::types::CurveType::Cubic); });
    through(r, "codec-cubic", p, z, n);
    knots(r, "codec-cubic", p, z);
    segments(r, "codec-cubic", p, z, false);
  }
  {
    auto y = run("spline", [](const Points &q) { return tl::cubicInterpolation(q); });
    through(r, "spline", p, y, n);
    knots(r, "spline", p, y);
    same(r, "spline", p, y, naturalSpline(p));
    if (collinear(p))
      for (size_t t = 0; t < y.size(); t++)
        REQUIRE(r, near(y[t], p[0].second + (p.back().second - p[0].second) * static_cast<double>(t) / p.back().first), "spline:line", "spline of a straight line:" + show(p) + " ->" + show(y));
  }
  if (n < 3) return; // the callers draw two points as a line
  {
    auto y = run("akima", [](const Points &q) { return tl::akimaInterpolation(q); });
    through(r, "akima", p, y, n);
    knots(r, "akima", p, y);
    same(r, "akima", p, y, akima(p));
    if (collinear(p))
      for (size_t t = 0; t < y.size(); t++)
        REQUIRE(r, near(y[t], p[0].second + (p.back().second - p[0].second) * static_cast<double>(t) / p.back().first), "akima:line", "akima of a straight line:" + show(p) + " ->" + show(y));
  }
  {
    auto y = run("bezier", [](const Points &q) { return tl::bezierInterpolation(q); });
    size_t used = n % 2 == 0 ? n - 1 : n; // segments take two points each
    through(r, "bezier", p, y, used);
    REQUIRE(r, near(y.front(), p[0].second) && near(y.back(), p[used - 1].second), "bezier:ends", "bezier misses an outer point:" + show(p) + " ->" + show(y));
    hull(r, "bezier", p, y);
    bezierShape(r, p, y, used);
  }
  {
    auto y = run("bspline", [](const Points &q) { return tl::bsplineInterpolation(q); });
    through(r, "bspline", p, y, n);
    REQUIRE(r, near(y.front(), p[0].second) && near(y.back(), p.back().second), "bspline:ends", "bspline misses an outer point:" + show(p) + " ->" + show(y));
    hull(r, "bspline", p, y);
    bsplineShape(r, p, y);
  }
}

void curves(mc::Run &r) {
  Points p = instants(r, r.thorough() ? 11 : 8, 2);
  if (!r.go()) return;
  values(r, p);
  r.describe([&] { return show(p); });
  all(r, p);
}

// Long and unevenly spaced curves: the gaps are enumerated, the values come from a short alphabet.
void longCurves(mc::Run &r) {
  static const std::vector<int> gaps = {1, 2, 3, 10, 100, 1000};
  int n = 2 + r.choose(r.thorough() ? 4 : 3);
  Points p = {{0, 0}};
  for (int i = 0; i < n; i++) p.push_back({p.back().first + r.pick(gaps), 0});
  if (!r.go()) return;
  int kind = r.choose(4);
  for (size_t i = 0; i < p.size(); i++)
    p[i].second = kind == 0 ? (i % 2 ? 1 : -1) : kind == 1 ? 0.7 : kind == 2 ? static_cast<double>(p[i].first) / p.back().first : (i == p.size() / 2 ? 1 : 0);
  r.describe([&] { return show(p); });
  all(r, p);
}

// The two-point functions.
void pointwise(mc::Run &r) {
  int t0 = r.choose(6) * 7, t1 = t0 + 1 + r.choose(12) * 5;
  double a = r.pick(kValues), b = r.pick(kValues);
  if (!r.go()) return;
  r.tag("pointwise");
  for (int q = -4; q <= (t1 - t0) * 4 + 4; q++) {
    double x = t0 + q / 4.0;
    double y = tl::linearInterpolation({t0, a}, {t1, b}, x);
    double want = x <= t0 ? a : x >= t1 ? b : a + (b - a) * (x - t0) / (t1 - t0);
    r.step();
    REQUIRE(r, near(y, want, 1e-9), "two-point", "linear interpolation between (" + std::to_string(t0) + "," + std::to_string(a) + ") and (" + std::to_string(t1) + "," + std::to_string(b) + ") at " + std::to_string(x) + " is " + std::to_string(y));
    // the mean frequency from the start of a chirp up to x
    double f0 = 60 + 40 * a, f1 = 60 + 40 * b;
    double c = tl::chirpInterpolation(t0, t1, f0, f1, x);
    REQUIRE(r, near(c, f0 + (f1 - f0) * (x - t0) / (t1 - t0) / 2, 1e-9), "chirp", "chirp interpolation at " + std::to_string(x));
    REQUIRE(r, near(tl::chirpInterpolation(t1, t0, f1, f0, x), c, 1e-9), "chirp-swap", "chirp interpolation depends on the order of its points");
    double g = tl::genericNormalization(t0, t1, f0, f1, x);
    REQUIRE(r, near(g, f0 + (f1 - f0) * (x - t0) / (t1 - t0), 1e-9), "normalise", "normalisation at " + std::to_string(x) + " is " + std::to_string(g));
  }
  r.describe([&] { return std::to_string(t0) + ".." + std::to_string(t1); });
  r.state(mc::hashStr(std::to_string(t0) + std::to_string(t1) + std::to_string(a) + std::to_string(b)));
}

// The curve of one effect, evaluated at any instant.
void keyframes(mc::Run &r) {
  Points p = instants(r, 6, 2);
  if (!r.go()) return;
  values(r, p);
  bool cubic = r.flip();
  unsigned timescale = r.flip() ? 1000 : 250;
  int at = r.choose(2) * 300;
  haptics::types::Effect e;
  e.setPosition(at);
  for (auto &x : p) e.addKeyframe(x.first, x.second, std::nullopt);
  r.tag("keyframes");
  for (int q = 0; q < p.back().first * 4; q++) {
    double x = q / 4.0;
    double y = e.EvaluateKeyframes(at + x, cubic ? haptics::types::CurveType::Cubic : haptics::types::CurveType::Linear, timescale);
    r.step();
    size_t s = 0;
    while (p[s + 1].first <= x) s++;
    double u = (x - p[s].first) / (p[s + 1].first - p[s].first), a = p[s].second, b = p[s + 1].second;
    double want = cubic ? a + (b - a) * u * u * (3 - 2 * u) : a + (b - a) * u;
    REQUIRE(r, near(y, want), cubic ? "evaluate-cubic" : "evaluate-linear", "the curve" + show(p) + " is " + std::to_string(y) + " at " + std::to_string(x) + ", not " + std::to_string(want));
  }
  r.describe([&] { return show(p); });
  r.state(mc::hashStr(show(p)));
}
} // namespace

int main(int argc, char **argv) {
  return mc::runMain(argc, argv, "C18", {{"curves", curves}, {"long-curves", longCurves}, {"pointwise", pointwise}, {"keyframes", keyframes}});
}
