// Angles: always taken counter-clockwise from the positive x axis, in [0, 2*pi).
#include "raw.h"
#include <cmath>
namespace spec {
inline double turn() { return boost::math::constants::two_pi<double>(); }
inline double wrap(double a) { return std::fmod(std::fmod(a, turn()) + turn(), turn()); }
//= f2c::types::Geometry<**>::mod_2pi(double) ;each
double mod_2pi(double a) { return wrap(a); }
//= f2c::types::Geometry<**>::getAngleDiffAbs(double, double) ;each
double diff_abs(double a, double b) { double d = wrap(b - a); return d < turn() / 2 ? d : turn() - d; }

inline double heading(double dx, double dy) { return wrap(std::atan2(dy, dx)); }
//= f2c::types::Point::getAngleFromPoint() const
double point_angle(const Point& p) { return heading(px(p), py(p)); }
//= f2c::types::Point::getAngleFromPoints(const f2c::types::Point &) const
double angle_between(const Point& u, const Point& v) {
  return wrap(std::atan2(px(u) * py(v) - py(u) * px(v), px(u) * px(v) + py(u) * py(v) + pz(u) * pz(v)));
}
//= f2c::types::Point::getAngleFromPoints(const f2c::types::Point &, const f2c::types::Point &, const f2c::types::Point &)
double corner(const Point& a, const Point& b, const Point& c) {
  return wrap(heading(px(c) - px(b), py(c) - py(b)) - heading(px(b) - px(a), py(b) - py(a)));
}
inline double step(const OGRLineString* s, size_t i) { return heading(s->getX(i + 1) - s->getX(i), s->getY(i + 1) - s->getY(i)); }
//= f2c::types::LineString::startAngle() const
double line_start(const LineString& s) { assume(n_points(s.get()) >= 2); return step(s.get(), 0); }
//= f2c::types::LineString::endAngle() const
double line_end(const LineString& s) { assume(n_points(s.get()) >= 2); return step(s.get(), n_points(s.get()) - 2); }
inline double leg(const OGRMultiPoint* s, size_t i) {
  const OGRPoint* a = point_of(s, i);
  const OGRPoint* b = point_of(s, i + 1);
  return heading(b->getX() - a->getX(), b->getY() - a->getY());
}
inline void valid(bool c) { if (!c) throw std::invalid_argument(""); }
//= f2c::types::MultiPoint::getInAngle(unsigned long) const
double in_angle(const MultiPoint& s, size_t i) { valid(i != 0); in_range(i, n_members(s.get())); return leg(s.get(), i - 1); }
//= f2c::types::MultiPoint::getOutAngle(unsigned long) const
double out_angle(const MultiPoint& s, size_t i) { assume(n_members(s.get()) > 0); valid(i < n_members(s.get()) - 1); return leg(s.get(), i); }
inline double between(double a, double b) {
  double p = wrap(a), q = wrap(b);
  return std::fabs(q - p) < turn() / 2 ? 0.5 * (p + q) : 0.5 * (p + q) + turn() / 2;
}
double lhs_avg(double a, double b) { return Point::mod_2pi(Point::getAngleAvg(a, b)); }
//= spec::lhs_avg
double avg(double a, double b) { return wrap(between(a, b)); }
double lhs_point_angle(const MultiPoint& s, size_t i) { return Point::mod_2pi(s.getPointAngle(i)); }
//= spec::lhs_point_angle
double mid_angle(const MultiPoint& s, size_t i) {
  size_t n = n_members(s.get());
  valid(n >= 2);
  assume(i < n);
  if (i == 0) return leg(s.get(), 0);
  if (i == n - 1) return leg(s.get(), n - 2);
  return wrap(between(leg(s.get(), i - 1), leg(s.get(), i)));
}
inline double nearest(double prev, double v) {
  double k = std::round(prev / turn());
  double best = (k - 2) * turn() + wrap(v);
  for (int i = -1; i <= 1; ++i) {
    double c = (k + i) * turn() + wrap(v);
    if (std::fabs(c - prev) <= std::fabs(best - prev)) best = c;
  }
  return best;
}
//= f2c::types::Geometry<**>::getAngContinuity(double, double) ;each
double continuity(double prev, double v) { return nearest(prev, v); }
//= f2c::types::Geometry<**>::getAngContinuity(const std::vector<double**> &) ;each
std::vector<double> continuity_all(const std::vector<double>& v) {
  assume(v.size() > 0);
  std::vector<double> r;
  r.push_back(v[0]);
  for (size_t i = 1; i < v.size(); ++i) r.push_back(Point::getAngContinuity(r[i - 1], v[i]));
  return r;
}
inline double heading(const Point& a, const Point& b) { return Point::mod_2pi(std::atan2(py(b) - py(a), px(b) - px(a))); }
//= f2c::types::Swath::getInAngle() const
double swath_in(const Swath& s) {
  LineString p = s.getPath();
  if (p.get()->IsEmpty()) return -1.0;
  in_range(1, n_points(p.get()));
  return heading(raw_point(p.get(), 0), raw_point(p.get(), 1));
}
//= f2c::types::Swath::getOutAngle() const
double swath_out(const Swath& s) {
  LineString p = s.getPath();
  if (p.get()->IsEmpty()) return -1.0;
  size_t n = n_points(p.get());
  in_range(1, n);
  return heading(raw_point(p.get(), n - 2), raw_point(p.get(), n - 1));
}
}
