// Paths: their states, measures, moves, sections and discretisations.
#include "swath.h"
#include "fields2cover/utils/spline.h"
#include <cmath>
namespace spec {
typedef PathSectionType ST;
typedef PathDirection DIR;
inline double wrap(double a) { double t = 2 * M_PI; return a - t * std::floor(a / t); }
inline std::vector<PathState> states(const Path& p) { std::vector<PathState> r; for (size_t i = 0; i < p.states_.size(); ++i) r.push_back(p.states_[i]); return r; }
inline void put(Path& p, const std::vector<PathState>& v) { p.states_ = v; }
inline double way(const PathState& s) { return s.len * (int)s.dir; }
// reading and writing
PathState lhs_get(Path& p, size_t i) { return p.getState(i); }
//= spec::lhs_get
PathState get(Path& p, size_t i) { assume(i < p.states_.size()); return states(p)[i]; }
PathState lhs_cget(const Path& p, size_t i) { return p.getState(i); }
//= spec::lhs_cget
PathState cget(const Path& p, size_t i) { assume(i < p.states_.size()); return states(p)[i]; }
PathState lhs_ix(Path& p, size_t i) { return p[i]; }
//= spec::lhs_ix
PathState ix(Path& p, size_t i) { assume(i < p.states_.size()); return states(p)[i]; }
PathState lhs_cix(const Path& p, size_t i) { return p[i]; }
//= spec::lhs_cix
PathState cix(const Path& p, size_t i) { assume(i < p.states_.size()); return states(p)[i]; }
PathState lhs_back(Path& p) { return p.back(); }
//= spec::lhs_back
PathState last(Path& p) { assume(p.states_.size() > 0); return states(p)[p.states_.size() - 1]; }
PathState lhs_cback(const Path& p) { return p.back(); }
//= spec::lhs_cback
PathState clast(const Path& p) { assume(p.states_.size() > 0); return states(p)[p.states_.size() - 1]; }
//= f2c::types::Path::setState(**)
void set_state(Path& p, size_t i, const PathState& s) { assume(i < p.states_.size()); std::vector<PathState> v = states(p); v[i] = s; put(p, v); }
//= f2c::types::Path::addState(const f2c::types::PathState &)
void add_state(Path& p, const PathState& s) { std::vector<PathState> v = states(p); v.push_back(s); put(p, v); }
//= f2c::types::Path::addState(const f2c::types::Point &, **)
void add_fields(Path& p, const Point& at, double ang, double len, DIR d, ST t, double vel) {
  PathState s;
  s.point = at; s.angle = ang; s.len = len; s.dir = d; s.type = t; s.velocity = vel;
  std::vector<PathState> v = states(p); v.push_back(s); put(p, v);
}
std::vector<PathState> lhs_states(Path& p) { return p.getStates(); }
//= spec::lhs_states
std::vector<PathState> all_states(Path& p) { return states(p); }
std::vector<PathState> lhs_cstates(const Path& p) { return p.getStates(); }
//= spec::lhs_cstates
std::vector<PathState> all_cstates(const Path& p) { return states(p); }
//= f2c::types::Path::setStates(**)
void set_states(Path& p, const std::vector<PathState>& v) { put(p, v); }
std::vector<PathState> lhs_walk(const Path& p) { std::vector<PathState> r; for (auto&& s : p) r.push_back(s); return r; }
//= spec::lhs_walk
std::vector<PathState> walk(const Path& p) { return states(p); }
std::vector<PathState> lhs_walk2(Path& p, double v) { for (auto&& s : p) s.velocity = v; return states(p); }
//= spec::lhs_walk2
std::vector<PathState> walk2(Path& p, double v) { for (size_t i = 0; i < p.states_.size(); ++i) p.states_[i].velocity = v; return states(p); }
//= f2c::types::Path::size() const
size_t count(const Path& p) { return states(p).size(); }
std::vector<PathState> lhs_join(Path& p, const Path& q) { p += q; return states(p); }
//= spec::lhs_join
std::vector<PathState> joined(Path& p, const Path& q) {
  std::vector<PathState> r = states(p), t = states(q);
  for (size_t i = 0; i < t.size(); ++i) r.push_back(t[i]);
  return r;
}
// measures
//= f2c::types::Path::length() const
double length(const Path& p) { double r = 0; for (size_t i = 0; i < p.states_.size(); ++i) r += std::fabs(p.states_[i].len); return r; }
//= f2c::types::Path::getTaskTime() const
double time_of(const Path& p) { double r = 0; for (size_t i = 0; i < p.states_.size(); ++i) r += p.states_[i].len / p.states_[i].velocity; return r; }
//= f2c::types::Path::getDimMinX() const
double min_x(const Path& p) { assume(p.states_.size() > 0); double r = p.states_[0].point.getX(); for (size_t i = 1; i < p.states_.size(); ++i) r = std::min(r, p.states_[i].point.getX()); return r; }
//= f2c::types::Path::getDimMinY() const
double min_y(const Path& p) { assume(p.states_.size() > 0); double r = p.states_[0].point.getY(); for (size_t i = 1; i < p.states_.size(); ++i) r = std::min(r, p.states_[i].point.getY()); return r; }
//= f2c::types::Path::getDimMaxX() const
double max_x(const Path& p) { assume(p.states_.size() > 0); double r = p.states_[0].point.getX(); for (size_t i = 1; i < p.states_.size(); ++i) r = std::max(r, p.states_[i].point.getX()); return r; }
//= f2c::types::Path::getDimMaxY() const
double max_y(const Path& p) { assume(p.states_.size() > 0); double r = p.states_[0].point.getY(); for (size_t i = 1; i < p.states_.size(); ++i) r = std::max(r, p.states_[i].point.getY()); return r; }
// moves
//= f2c::types::Path::moveTo(**)
void move_to(Path& p, const Point& d) {
  std::vector<PathState> v = states(p), w;
  for (size_t i = 0; i < v.size(); ++i) { PathState s = v[i]; s.point = Point(s.point->getX() + d->getX(), s.point->getY() + d->getY(), s.point->getZ() + d->getZ()); w.push_back(s); }
  put(p, w);
}
//= f2c::types::Path::rotateFromPoint(**) ;opaque=*Point::rotateFromPoint(*
void rotate(Path& p, const Point& c, double a) {
  std::vector<PathState> v = states(p), w;
  for (size_t i = 0; i < v.size(); ++i) { PathState s = v[i]; s.point = c.rotateFromPoint(a, s.point); s.angle = wrap(s.angle + a); w.push_back(s); }
  put(p, w);
}
//= f2c::types::Path::mirrorX()
void mirror_x(Path& p) {
  std::vector<PathState> v = states(p), w;
  for (size_t i = 0; i < v.size(); ++i) { PathState s = v[i]; s.point = Point(-s.point->getX(), s.point->getY(), s.point->getZ()); s.angle = wrap(M_PI - s.angle); w.push_back(s); }
  put(p, w);
}
//= f2c::types::Path::mirrorY()
void mirror_y(Path& p) {
  std::vector<PathState> v = states(p), w;
  for (size_t i = 0; i < v.size(); ++i) { PathState s = v[i]; s.point = Point(s.point->getX(), -s.point->getY(), s.point->getZ()); s.angle = wrap(-s.angle); w.push_back(s); }
  put(p, w);
}
// directions and types
inline void all(Path& p, bool dir, DIR d, ST t) { for (size_t i = 0; i < p.states_.size(); ++i) if (dir) p.states_[i].dir = d; else p.states_[i].type = t; }
//= f2c::types::Path::setBackwardDir()
void backwards(Path& p) { all(p, true, DIR::BACKWARD, ST::TURN); }
//= f2c::types::Path::setForwardDir()
void forwards(Path& p) { all(p, true, DIR::FORWARD, ST::TURN); }
//= f2c::types::Path::setSwathType()
void swaths(Path& p) { all(p, false, DIR::FORWARD, ST::SWATH); }
//= f2c::types::Path::setTurnType()
void turns(Path& p) { all(p, false, DIR::FORWARD, ST::TURN); }
//= f2c::types::Path::setBackwardDir(int)
void backward(Path& p, int i) { assume(i >= 0 && (size_t)i < p.states_.size()); p.states_[i].dir = DIR::BACKWARD; }
//= f2c::types::Path::setForwardDir(int)
void forward(Path& p, int i) { assume(i >= 0 && (size_t)i < p.states_.size()); p.states_[i].dir = DIR::FORWARD; }
//= f2c::types::Path::setSwathType(int)
void swath(Path& p, int i) { assume(i >= 0 && (size_t)i < p.states_.size()); p.states_[i].type = ST::SWATH; }
//= f2c::types::Path::setTurnType(int)
void turn(Path& p, int i) { assume(i >= 0 && (size_t)i < p.states_.size()); p.states_[i].type = ST::TURN; }
// a swath becomes one state for each of its segments
//= f2c::types::Path::appendSwath(**)
void append_swath(Path& p, const Swath& s, double v) {
  std::vector<PathState> w = states(p);
  const OGRLineString* l = s.path_.get();
  assume(n_points(l) > 0);
  for (size_t i = 0; i + 1 < n_points(l); ++i) {
    Point a = raw_point(l, i), b = raw_point(l, i + 1);
    PathState t;
    t.point = a;
    t.angle = wrap(std::atan2(b->getY() - a->getY(), b->getX() - a->getX()));
    t.len = a.distance(b);
    t.dir = DIR::FORWARD; t.type = ST::SWATH; t.velocity = v;
    w.push_back(t);
  }
  put(p, w);
}
// the end of a state
//= f2c::types::PathState::atEnd() const
Point state_end(const PathState& s) { return Point(s.point->getX() + way(s) * std::cos(s.angle), s.point->getY() + way(s) * std::sin(s.angle)); }
//= f2c::types::Path::atStart() const
Point path_start(const Path& p) { assume(p.states_.size() > 0); return p.states_[0].point; }
//= f2c::types::Path::atEnd() const
Point path_end(const Path& p) { assume(p.states_.size() > 0); return p.states_[p.states_.size() - 1].atEnd(); }
//= f2c::types::Path::toLineString() const
LineString line(const Path& p) {
  assume(p.states_.size() > 0);
  LineString l;
  for (size_t i = 0; i < p.states_.size(); ++i) l.addPoint(p.states_[i].point);
  l.addPoint(p.atEnd());
  return l;
}
// swath states in steps of about the length asked for, the others as they are
//= f2c::types::Path::discretizeSwath(double) const
Path steps(const Path& p, double h) {
  assume(h > 0);
  Path r;
  for (size_t i = 0; i < p.states_.size(); ++i) {
    const PathState& s = p.states_[i];
    if (s.type != ST::SWATH) { r.addState(s); continue; }
    double n = std::max(1.0, std::round(std::fabs(s.len) / h));
    Point e = s.atEnd();
    for (int k = 0; k < n; ++k) {
      PathState t = s;
      t.point = Point(s.point->getX() + (e->getX() - s.point->getX()) * k / n, s.point->getY() + (e->getY() - s.point->getY()) * k / n, s.point->getZ() + (e->getZ() - s.point->getZ()) * k / n);
      t.len = s.len / n;
      r.addState(t);
    }
  }
  return r;
}
// the state where a length of the path has been driven
//= f2c::types::Path::at(double) const
PathState at(const Path& p, double len) {
  assume(p.states_.size() > 0);
  double all = 0;
  for (size_t i = 0; i < p.states_.size(); ++i) all += std::fabs(p.states_[i].len);
  double left = len > all ? all : len < 0 ? 0 : len;
  for (size_t i = 0; i < p.states_.size(); ++i) {
    double l = std::fabs(p.states_[i].len);
    if (left <= l) {
      PathState s = p.states_[i];
      double d = left * (int)s.dir;
      s.point = Point(s.point->getX() + d * std::cos(s.angle), s.point->getY() + d * std::sin(s.angle));
      return s;
    }
    left = left - l;
  }
  return PathState();
}
// states that are near the first of them become one, with the length of all
//= f2c::types::Path::reduce(double)
Path& reduced(Path& p, double eps) {
  std::vector<PathState> v = states(p), w;
  for (size_t i = 0; i < v.size(); ++i) {
    bool join = false;
    if (w.size() > 0) {
      const PathState& f = w[w.size() - 1];
      join = f.type == v[i].type && f.dir == v[i].dir && f.point.distance(v[i].point) < eps;
    }
    if (join) w[w.size() - 1].len += v[i].len; else w.push_back(v[i]);
  }
  put(p, w);
  return p;
}
// equal steps along curves through the places, at the length driven; each step as the state it is in
inline void lengths(Path& p) { for (size_t i = 0; i < p.states_.size(); ++i) p.states_[i].len = std::fabs(p.states_[i].len); }
Path lhs_populate(Path& p, int n) { lengths(p); return p.populate(n); }
//= spec::lhs_populate ;opaque=*CubicSpline::*|*Point::getAngContinuity(*
Path populated(Path& p, int n) {
  lengths(p);
  std::vector<PathState> v = states(p);
  if (v.size() <= 2) return p;
  std::vector<PathState> w;
  for (size_t i = 0; i < v.size(); ++i) if (v[i].len != 0) w.push_back(v[i]);
  PathState e = v[v.size() - 1];
  e.point = e.atEnd();
  e.len = 0;
  w.push_back(e);
  std::vector<double> x, y, a, t;
  double at = 0;
  for (size_t i = 0; i < w.size(); ++i) {
    x.push_back(w[i].point.getX());
    y.push_back(w[i].point.getY());
    a.push_back(w[i].angle);
    t.push_back(at);
    at += w[i].len;
  }
  f2c::CubicSpline sx(t, x), sy(t, y), sa(t, Point::getAngContinuity(a));
  std::vector<PathState> r;
  for (int i = 0; i < n; ++i) {
    double d = i * (t[t.size() - 1] / n);
    size_t j = 0;
    while (j + 1 < t.size() && t[j + 1] < d + 1e-10) ++j;
    PathState s = w[j];
    s.point = Point(sx(d), sy(d));
    s.angle = Point::mod_2pi(sa(d));
    s.len = t[t.size() - 1] / n;
    r.push_back(s);
  }
  put(p, r);
  return p;
}
Path lhs_discretize(Path& p, double h) { assume(h > 0); return p.discretize(h); }
//= spec::lhs_discretize ;opaque=*Path::populate(*|*Path::reduce(*
Path discretized(Path& p, double h) {
  assume(h > 0);
  if (p.states_.size() > 1) { p.populate(static_cast<int>(10 * p.length() / h)); p.reduce(h); }
  return p;
}
}
