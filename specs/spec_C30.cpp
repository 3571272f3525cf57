// Splines: through their points, smooth, monotonic where asked for.
#include "raw.h"
#include "fields2cover/utils/spline.h"
#include <cmath>
#include <stdexcept>
namespace spec {
typedef f2c::CubicSpline Spline;
typedef std::vector<double> V;
// points in order, each with its step from the one before and its value
typedef std::vector<std::pair<double, double>> Steps;
inline double pos(double g) { return g < 0 ? -g + 0.25 : g + 0.25; }
inline V xs(const Steps& s) { V x; double t = 0; for (const std::pair<double, double>& p : s) { t += pos(p.first); x.push_back(t); } return x; }
inline V ys(const Steps& s) { V y; for (const std::pair<double, double>& p : s) y.push_back(p.second); return y; }
// through every point
double lhs_at(const Steps& s, size_t i) { assume(s.size() > 1 && i < s.size()); V x = xs(s), y = ys(s); return Spline(x, y)(x[i]); }
//= spec::lhs_at ;maxlen=5
double at(const Steps& s, size_t i) { assume(s.size() > 1 && i < s.size()); return s[i].second; }
double lhs_at_mono(const Steps& s, size_t i) { assume(s.size() > 1 && i < s.size()); V x = xs(s), y = ys(s); return Spline(x, y, true)(x[i]); }
//= spec::lhs_at_mono ;maxlen=5
double at_mono(const Steps& s, size_t i) { assume(s.size() > 1 && i < s.size()); return s[i].second; }
double lhs_set(const Steps& s, size_t i) { assume(s.size() > 1 && i < s.size()); Spline c; V x = xs(s), y = ys(s); c.SetPoints(x, y); return c(x[i]); }
//= spec::lhs_set ;maxlen=5
double set(const Steps& s, size_t i) { assume(s.size() > 1 && i < s.size()); return s[i].second; }
// nothing is left of points given before
double lhs_again(const Steps& o, const Steps& s, double t) { assume(s.size() > 1 && o.size() > 1); Spline c(xs(o), ys(o)); c.SetPoints(xs(s), ys(s)); return c(t); }
//= spec::lhs_again
double again(const Steps& o, const Steps& s, double t) { assume(s.size() > 1 && o.size() > 1); return Spline(xs(s), ys(s))(t); }
// the natural spline: second derivatives that make the slopes meet, and none at the ends
inline double natural(const V& x, const V& y, double t) {
  size_t n = x.size();
  V w, v;  // elimination from the start: m[i] = v[i] - w[i] * m[i+1]
  w.push_back(0);
  v.push_back(0);
  for (size_t i = 1; i + 1 < n; ++i) {
    double a = x[i] - x[i - 1], b = x[i + 1] - x[i];
    double r = 6 * ((y[i + 1] - y[i]) / b - (y[i] - y[i - 1]) / a), k = 2 * (a + b) - a * w[i - 1];
    w.push_back(b / k);
    v.push_back((r - a * v[i - 1]) / k);
  }
  // from the end: m of the piece that holds t
  size_t j = 0;
  for (size_t i = 1; i + 1 < n; ++i) if (x[i] < t) j = i;
  double hi = 0, lo = 0;
  for (size_t k = n - 1; k > j; --k) { hi = lo; lo = v[k - 1] - w[k - 1] * hi; }
  double h = x[j + 1] - x[j], p = x[j + 1] - t, q = t - x[j];
  return lo * p * p * p / (6 * h) + hi * q * q * q / (6 * h) + (y[j] / h - lo * h / 6) * p + (y[j + 1] / h - hi * h / 6) * q;
}
inline double inside(const V& x, double u) { double k = u < 0 ? -u : u; return x[0] + (x[x.size() - 1] - x[0]) * (k - std::floor(k)); }
double lhs_natural(const Steps& s, double u) { assume(s.size() > 1); V x = xs(s), y = ys(s); return Spline(x, y)(inside(x, u / 7)); }
//= spec::lhs_natural ;maxlen=5
double natural_at(const Steps& s, double u) { assume(s.size() > 1); V x = xs(s), y = ys(s); return natural(x, y, inside(x, u / 7)); }
// values that never fall give a curve that never falls, when asked for
inline double within(const V& x, const V& y, double t, double v) {
  size_t j = 0;
  for (size_t i = 1; i + 1 < x.size(); ++i) if (x[i] < t) j = i;
  return std::max(std::min(y[j], y[j + 1]), std::min(v, std::max(y[j], y[j + 1])));
}
inline V three() { V x; x.push_back(0); x.push_back(1); x.push_back(3); return x; }
inline V up(double a, double b, double c) { V y; y.push_back(a); y.push_back(a + b * b); y.push_back(a + b * b + c * c); return y; }
double lhs_climbs(double a, double b, double c, double u) { return Spline(three(), up(a, b, c), true)(inside(three(), u / 7)); }
//= spec::lhs_climbs ;time=300
double climbs(double a, double b, double c, double u) { double t = inside(three(), u / 7); return within(three(), up(a, b, c), t, Spline(three(), up(a, b, c), true)(t)); }
// what cannot be a curve is refused
bool refused(const V& x, const V& y, bool m) { try { Spline c(x, y, m); } catch (const std::out_of_range&) { return true; } return false; }
//= spec::refused
bool wrong(const V& x, const V& y, bool m) {
  if (x.size() != y.size() || x.size() < 2) return true;
  for (size_t i = 0; i + 1 < x.size(); ++i) if (!(x[i + 1] > x[i])) return true;
  return false;
}
}
