// Paths planned along swaths and routes.
#include "swath.h"
#include "fields2cover/path_planning/path_planning.h"
#include <steering_functions/utilities/utilities.hpp>
#include <cmath>
namespace spec {
typedef f2c::pp::PathPlanning PP;
typedef f2c::pp::TurningBase TB;
typedef std::pair<Point, double> Pose;
// every swath at cruise speed, with the turn to the next one after it
//= f2c::pp::PathPlanning::planPath(const f2c::types::Robot &, const f2c::types::Swaths &, **) ;opaque=*TurningBase::createTurn(*|*Path::discretize(*|*Path::appendSwath(*
Path along_swaths(const Robot& r, const Swaths& s, TB& t) {
  Path p;
  for (size_t i = 0; i < s.size(); ++i) {
    if (i > 0) {
      Path c = t.createTurn(r, s.at(i - 1).endPoint(), s.at(i - 1).getOutAngle(), s.at(i).startPoint(), s.at(i).getInAngle());
      p += c.discretize(0.1);
    }
    p.appendSwath(s.at(i), r.getCruiseVel());
  }
  return p;
}
// the connection before each list of swaths, then the list; the last connection, if any, at the end
//= f2c::pp::PathPlanning::planPath(const f2c::types::Robot &, const f2c::types::Route &, **) ;opaque=*PathPlanning::planPathForConnection(*|*PathPlanning::planPath(const f2c::types::Robot &, const f2c::types::Swaths &*
Path along_route(const Robot& r, const Route& route, TB& t) {
  assume(route.sizeConnections() >= route.sizeVectorSwaths());
  Path p;
  Swaths before;
  size_t n = route.sizeVectorSwaths();
  for (size_t i = 0; i < n; ++i) {
    Swaths now = route.getSwaths(i);
    p += PP::planPathForConnection(r, before, route.getConnection(i), now, t);
    p += PP::planPath(r, now, t);
    before = now;
  }
  if (route.sizeConnections() > n) {
    assume(n > 0);
    p += PP::planPathForConnection(r, before, route.getConnection(route.sizeConnections() - 1), Swaths(), t);
  }
  return p;
}
// from the end of the last swath, or the start of the connection, to the first swath, or the end of the connection
//= f2c::pp::PathPlanning::planPathForConnection(const f2c::types::Robot &, const f2c::types::Swaths &, **) ;opaque=*PathPlanning::planPathForConnection(const f2c::types::Robot &, const f2c::types::Point &*
Path between_swaths(const Robot& r, const Swaths& a, const MultiPoint& c, const Swaths& b, TB& t) {
  assume(c.size() != 1 || (a.size() > 0 && b.size() > 0));
  if (a.size() > 0) assume(n_points(a.data_[a.size() - 1].path_.get()) > 1);
  if (b.size() > 0) assume(n_points(b.data_[0].path_.get()) > 1);
  if (c.size() == 0 && (a.size() == 0 || b.size() == 0)) return Path();
  Point p, q;
  double u, v;
  if (a.size() > 0) { p = a.at(a.size() - 1).endPoint(); u = a.at(a.size() - 1).getOutAngle(); } else { p = c.getGeometry(0); u = c.getOutAngle(0); }
  if (b.size() > 0) { q = b.at(0).startPoint(); v = b.at(0).getInAngle(); } else { q = c.getGeometry(c.size() - 1); v = c.getInAngle(c.size() - 1); }
  return PP::planPathForConnection(r, p, u, c, q, v, t);
}
// a turn from each pose of the simplified connection to the next
//= f2c::pp::PathPlanning::planPathForConnection(const f2c::types::Robot &, const f2c::types::Point &, **) ;opaque=*TurningBase::createTurn(*|*PathPlanning::simplifyConnection(*
Path between_points(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b, TB& t) {
  std::vector<Pose> v = PP::simplifyConnection(r, p, a, c, q, b);
  Path w;
  for (size_t i = 0; i + 1 < v.size(); ++i) w += t.createTurn(r, v[i].first, v[i].second, v[i + 1].first, v[i + 1].second);
  return w;
}
inline Point scaled(const Point& to, const Point& from, double k) { return Point((to->getX() - from->getX()) * k + from->getX(), (to->getY() - from->getY()) * k + from->getY(), (to->getZ() - from->getZ()) * k + from->getZ()); }
inline double dir(const Point& a, const Point& b) { double t = 2 * M_PI, x = std::atan2(b->getY() - a->getY(), b->getX() - a->getX()); return x - t * std::floor(x / t); }
// the corners of a connection that leave room to drive through, entered and left on its legs
// (far away, for the places to be further apart than the turning radius)
inline Point far(const Point& p, double k) { return Point(p->getX() * k, p->getY() * k, p->getZ()); }
inline MultiPoint fars(const MultiPoint& c, double k) { MultiPoint m; for (size_t i = 0; i < c.size(); ++i) m.addPoint(far(c.getGeometry(i), k)); return m; }
std::vector<Pose> lhs_simplified6(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b) { return PP::simplifyConnection(r, far(p, 6), a, fars(c, 6), far(q, 6), b); }
//= spec::lhs_simplified6 ;maxlen=7 ;opaque=*PathPlanning::getSmoothTurningRadius(*
std::vector<Pose> simplified6(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b);
std::vector<Pose> lhs_simplified12(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b) { return PP::simplifyConnection(r, far(p, 12), a, fars(c, 12), far(q, 12), b); }
//= spec::lhs_simplified12 ;maxlen=7 ;opaque=*PathPlanning::getSmoothTurningRadius(*
std::vector<Pose> simplified12(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b);
std::vector<Pose> lhs_simplified40(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b) { return PP::simplifyConnection(r, far(p, 40), a, fars(c, 40), far(q, 40), b); }
//= spec::lhs_simplified40 ;maxlen=7 ;opaque=*PathPlanning::getSmoothTurningRadius(*
std::vector<Pose> simplified40(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b);
//= f2c::pp::PathPlanning::simplifyConnection(**) ;opaque=*PathPlanning::getSmoothTurningRadius(*
std::vector<Pose> simplified(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b) {
  double s = PP::getSmoothTurningRadius(r);
  std::vector<Pose> w;
  w.push_back(Pose(p, a));
  if (p.distance(q) >= 6 * s && c.size() >= 2) {
    std::vector<Point> v;
    for (size_t i = 1; i + 1 < c.size(); ++i)
      if (std::fabs(dir(c.getGeometry(i - 1), c.getGeometry(i)) - dir(c.getGeometry(i), c.getGeometry(i + 1))) > 0.1) v.push_back(c.getGeometry(i));
    for (size_t i = 1; i + 1 < v.size(); ++i) {
      double din = v[i].distance(v[i - 1]), dout = v[i].distance(v[i + 1]);
      if (din == 0 || dout == 0) continue;
      Point in = scaled(v[i - 1], v[i], std::min(din / 2, s) / din), out = scaled(v[i + 1], v[i], std::min(dout / 2, s) / dout);
      if (in.distance(w[w.size() - 1].first) > 3 * s && in.distance(p) > 3 * s && in.distance(q) > 3 * s) w.push_back(Pose(in, dir(v[i - 1], v[i])));
      if (out.distance(v[i + 1]) > 3 * s && out.distance(p) > 3 * s && out.distance(q) > 3 * s && out.distance(in) > 3 * s) w.push_back(Pose(out, dir(v[i], v[i + 1])));
    }
  }
  w.push_back(Pose(q, b));
  return w;
}
std::vector<Pose> simplified6(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b) { return simplified(r, far(p, 6), a, fars(c, 6), far(q, 6), b); }
std::vector<Pose> simplified12(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b) { return simplified(r, far(p, 12), a, fars(c, 12), far(q, 12), b); }
std::vector<Pose> simplified40(const Robot& r, const Point& p, double a, const MultiPoint& c, const Point& q, double b) { return simplified(r, far(p, 40), a, fars(c, 40), far(q, 40), b); }
}
