// Turns: the normal form of a turn, its placement, the cache and the check of a turn.
#include "raw.h"
#include "fields2cover/path_planning/turning_base.h"
#include "fields2cover/path_planning/steer_to_path.hpp"
#include "fields2cover/path_planning/dubins_curves.h"
#include "fields2cover/path_planning/dubins_curves_cc.h"
#include "fields2cover/path_planning/reeds_shepp_curves.h"
#include "fields2cover/path_planning/reeds_shepp_curves_hc.h"
#include <steering_functions/dubins_state_space/dubins_state_space.hpp>
#include <steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp>
#include <steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp>
#include <steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp>
#include <steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp>
#include <cmath>
namespace spec {
typedef f2c::pp::TurningBase TB;
typedef f2c::pp::DubinsCurves DC;
inline double wrap(double a) { double t = 2 * M_PI, r = a - t * std::floor(a / t); return r; }
struct Normal { double dist, rot, in, out; bool mirrored; };
inline Normal normal(const Point& p, double a, const Point& q, double b) {
  Normal n;
  double dx = q->getX() - p->getX(), dy = q->getY() - p->getY(), dz = q->getZ() - p->getZ();
  n.dist = p.distance(q);
  n.rot = wrap(std::atan2(dy, dx));
  n.in = wrap(a - n.rot);
  n.out = wrap(b - n.rot);
  n.mirrored = n.in > M_PI;
  if (n.mirrored) { n.in = wrap(-n.in); n.out = wrap(-n.out); }
  return n;
}
//= f2c::pp::TurningBase::transformToNormalTurn(**)
std::vector<double> normal_form(const Point& p, double a, const Point& q, double b) {
  Normal n = normal(p, a, q, b);
  return std::vector<double>{n.dist, n.rot, n.in, n.out, n.mirrored ? 1.0 : 0.0};
}
// a turn in normal form, placed between its two poses; ends that are near the poses are put on them
inline std::vector<PathState> states(const Path& p) { std::vector<PathState> r; for (size_t i = 0; i < p.size(); ++i) r.push_back(p[i]); return r; }
inline Path simple(DC& t, const Robot& r, const Point& p, double a, const Point& q, double b) {
  Normal n = normal(p, a, q, b);
  return t.createSimpleTurn(r, n.dist, n.in, n.out);
}
std::vector<PathState> lhs_placed(DC& t, const Robot& r, const Point& p, double a, const Point& q, double b) { t.setUsingCache(false); return states(t.createTurn(r, p, a, q, b)); }
//= spec::lhs_placed ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> placed(DC& t, const Robot& r, const Point& p, double a, const Point& q, double b) {
  t.setUsingCache(false);
  Normal n = normal(p, a, q, b);
  std::vector<PathState> v = states(simple(t, r, p, a, q, b)), w;
  if (v.size() <= 1) return w;
  for (size_t i = 0; i < v.size(); ++i) {
    PathState s = v[i];
    double x = s.point.getX(), y = n.mirrored ? -s.point.getY() : s.point.getY();
    Point at(x * std::cos(n.rot) - y * std::sin(n.rot) + p->getX(), x * std::sin(n.rot) + y * std::cos(n.rot) + p->getY(), p->getZ());
    if (i == 0 && at.distance(p) < 0.05f) at = p;
    if (i == v.size() - 1 && at.distance(q) < 0.05f) at = q;
    s.point = at;
    s.angle = wrap((n.mirrored ? -s.angle : s.angle) + n.rot);
    w.push_back(s);
  }
  return w;
}
// (ends as near as a hundredth of anything)
inline Point close(const Point& p, double x, double y, double z) { return Point(p->getX() + x / 400, p->getY() + y / 400, p->getZ() + z / 400); }
inline Path ends(const Path& p, const Point& a, const Point& b, double x, double y, double z) {
  Path w = p;
  for (size_t i = 0; i < w.size(); ++i) if (i == 0 || i == w.size() - 1) w[i].point = close(i == 0 ? a : b, x, y, z);
  return w;
}
std::vector<PathState> lhs_ends(const Path& p, const Point& a, const Point& b, double x, double y, double z) {
  Path w = ends(p, a, b, x, y, z);
  TB::correctPath(w, a, b);
  return states(w);
}
//= spec::lhs_ends ;maxlen=3
std::vector<PathState> put_on_ends(const Path& p, const Point& a, const Point& b, double x, double y, double z) {
  std::vector<PathState> v = states(ends(p, a, b, x, y, z));
  size_t n = v.size();
  if (n < 2) return v;
  if (v[0].point.distance(a) < 0.05f) v[0].point = a;
  if (v[n - 1].point.distance(b) < 0.05f) v[n - 1].point = b;
  return v;
}
// the same without a cache, and with an empty one
std::vector<PathState> lhs_cached(const Robot& r, const Point& p, double a, const Point& q, double b) { DC t; return states(t.createTurn(r, p, a, q, b)); }
//= spec::lhs_cached ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> cached(const Robot& r, const Point& p, double a, const Point& q, double b) { DC t; t.setUsingCache(false); return states(t.createTurn(r, p, a, q, b)); }
// a turn asked for before another one: the answer is the turn asked for, if anything is different by a thousandth
inline bool apart(double x, double y) { return std::fabs(x - y) >= 0.0021; }
std::vector<PathState> lhs_other_vel(const Robot& r, double d, double a, double b, double v) {
  assume(apart(r.getTurnVel(), v) && v >= 0);
  DC t;
  Robot s = r;
  s.setTurnVel(v);
  t.createTurnIfNotCached(r, d, a, b);
  return states(t.createTurnIfNotCached(s, d, a, b));
}
//= spec::lhs_other_vel ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> other_vel(const Robot& r, double d, double a, double b, double v) {
  assume(apart(r.getTurnVel(), v) && v >= 0);
  Robot s = r;
  s.setTurnVel(v);
  DC t;
  return states(t.createSimpleTurn(s, d, a, b));
}
std::vector<PathState> lhs_other_curv(const Robot& r, double d, double a, double b, double v) {
  assume(apart(r.getMaxCurv(), v) && v >= 0);
  DC t;
  Robot s = r;
  s.setMaxCurv(v);
  t.createTurnIfNotCached(r, d, a, b);
  return states(t.createTurnIfNotCached(s, d, a, b));
}
//= spec::lhs_other_curv ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> other_curv(const Robot& r, double d, double a, double b, double v) {
  assume(apart(r.getMaxCurv(), v) && v >= 0);
  Robot s = r;
  s.setMaxCurv(v);
  DC t;
  return states(t.createSimpleTurn(s, d, a, b));
}
std::vector<PathState> lhs_other_sharp(const Robot& r, double d, double a, double b, double v) {
  assume(apart(r.getMaxDiffCurv(), v) && v >= 0);
  DC t;
  Robot s = r;
  s.setMaxDiffCurv(v);
  t.createTurnIfNotCached(r, d, a, b);
  return states(t.createTurnIfNotCached(s, d, a, b));
}
//= spec::lhs_other_sharp ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> other_sharp(const Robot& r, double d, double a, double b, double v) {
  assume(apart(r.getMaxDiffCurv(), v) && v >= 0);
  Robot s = r;
  s.setMaxDiffCurv(v);
  DC t;
  return states(t.createSimpleTurn(s, d, a, b));
}
std::vector<PathState> lhs_other_dist(const Robot& r, double d, double a, double b, double e) {
  assume(apart(d, e));
  DC t;
  t.createTurnIfNotCached(r, d, a, b);
  return states(t.createTurnIfNotCached(r, e, a, b));
}
//= spec::lhs_other_dist ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> other_dist(const Robot& r, double d, double a, double b, double e) {
  assume(apart(d, e));
  DC t;
  return states(t.createSimpleTurn(r, e, a, b));
}
std::vector<PathState> lhs_other_in(const Robot& r, double d, double a, double b, double e) {
  assume(apart(a, e));
  DC t;
  t.createTurnIfNotCached(r, d, a, b);
  return states(t.createTurnIfNotCached(r, d, e, b));
}
//= spec::lhs_other_in ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> other_in(const Robot& r, double d, double a, double b, double e) {
  assume(apart(a, e));
  DC t;
  return states(t.createSimpleTurn(r, d, e, b));
}
std::vector<PathState> lhs_other_out(const Robot& r, double d, double a, double b, double e) {
  assume(apart(b, e));
  DC t;
  t.createTurnIfNotCached(r, d, a, b);
  return states(t.createTurnIfNotCached(r, d, a, e));
}
//= spec::lhs_other_out ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> other_out(const Robot& r, double d, double a, double b, double e) {
  assume(apart(b, e));
  DC t;
  return states(t.createSimpleTurn(r, d, a, e));
}
std::vector<PathState> lhs_again(const Robot& r, double d, double a, double b) {
  DC t;
  t.createTurnIfNotCached(r, d, a, b);
  return states(t.createTurnIfNotCached(r, d, a, b));
}
//= spec::lhs_again ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> again(const Robot& r, double d, double a, double b) { DC t; return states(t.createSimpleTurn(r, d, a, b)); }
// turns of another discretization are not those of this one
std::vector<PathState> lhs_finer(const Robot& r, double d, double a, double b, double h, double k) {
  DC t;
  t.setDiscretization(h);
  t.createTurnIfNotCached(r, d, a, b);
  t.setDiscretization(k);
  return states(t.createTurnIfNotCached(r, d, a, b));
}
//= spec::lhs_finer ;opaque=*DubinsCurves::createSimpleTurn(*
std::vector<PathState> finer(const Robot& r, double d, double a, double b, double h, double k) { DC t; t.setDiscretization(k); return states(t.createSimpleTurn(r, d, a, b)); }
double lhs_step(DC& t, double h) { t.setDiscretization(h); return t.getDiscretization(); }
//= spec::lhs_step
double step(DC& t, double h) { return h; }
bool lhs_using(DC& t, bool h) { t.setUsingCache(h); return t.getUsingCache(); }
//= spec::lhs_using
bool using_it(DC& t, bool h) { return h; }
// a turn is valid when it stays above the line between its ends and ends at the right place in the right direction
//= f2c::pp::TurningBase::isTurnValid(**)
bool valid_turn(const Path& p, double d, double out, double err, double rot) {
  assume(p.size() > 0);
  for (size_t i = 0; i < p.size(); ++i)
    if (p[i].point.getY() < -err) return false;
  const PathState& l = p[p.size() - 1];
  Point e = l.atEnd();
  return std::cos(l.angle - out) >= 1 - rot && std::fabs(e.getX() - d) < err && std::fabs(e.getY()) < err;
}
// states of the library for turns: each one as long as the way to the next
//= f2c::pp::steerStatesToPath(**)
Path from_states(const std::vector<steer::State>& c, double vel) {
  Path p;
  for (size_t i = 0; i < c.size(); ++i) {
    PathState s;
    s.point = Point(c[i].x, c[i].y);
    s.angle = c[i].theta;
    s.velocity = vel;
    s.dir = static_cast<PathDirection>((int)c[i].d);
    s.type = PathSectionType::TURN;
    s.len = 0;
    if (i + 1 < c.size()) s.len = std::sqrt((c[i].x - c[i + 1].x) * (c[i].x - c[i + 1].x) + (c[i].y - c[i + 1].y) * (c[i].y - c[i + 1].y));
    p.addState(s);
  }
  return p;
}
// a loop: nearly a whole turn in one piece or in all, or one and a half in either direction
//= f2c::pp::loop_detected(**)
bool loops(const std::vector<steer::Control>& c) {
  double sum = 0, all = 0;
  bool one = false;
  for (size_t i = 0; i < c.size(); ++i) {
    double d = c[i].delta_s * c[i].kappa / (2 * M_PI);
    if (std::fabs(d) > 0.9) one = true;
    sum += d;
    all += std::fabs(d);
  }
  return one || std::fabs(sum) > 0.9 || all > 1.5;
}
// every planner: from the origin, in the first direction, to a point as far away on the x axis, in the second one
inline steer::State pose(double x, double y, double t, double k) { steer::State s; s.x = x; s.y = y; s.theta = t; s.kappa = k; s.d = 0; return s; }
//= f2c::pp::DubinsCurves::createSimpleTurn(**)
Path dubins(DC& t, const Robot& r, double d, double a, double b) {
  steer::State s = pose(0, 0, a, 0), e = pose(d, 0, b, 0);
  Dubins_State_Space ss(r.getMaxCurv(), t.getDiscretization(), true);
  return f2c::pp::steerStatesToPath(ss.get_path(s, e), r.getTurnVel());
}
//= f2c::pp::ReedsSheppCurves::createSimpleTurn(**)
Path reeds(f2c::pp::ReedsSheppCurves& t, const Robot& r, double d, double a, double b) {
  steer::State s = pose(0, 0, a, 0), e = pose(d, 0, b, 0);
  Reeds_Shepp_State_Space ss(r.getMaxCurv(), t.getDiscretization());
  return f2c::pp::steerStatesToPath(ss.get_path(s, e), r.getTurnVel());
}
//= f2c::pp::ReedsSheppCurvesHC::createSimpleTurn(**)
Path reeds_hc(f2c::pp::ReedsSheppCurvesHC& t, const Robot& r, double d, double a, double b) {
  steer::State s = pose(0, 0, a, 0), e = pose(d, 0, b, 0);
  HC00_Reeds_Shepp_State_Space ss(r.getMaxCurv(), r.getMaxDiffCurv(), t.getDiscretization());
  return f2c::pp::steerStatesToPath(ss.get_path(s, e), r.getTurnVel());
}
// gentler limits until there is no loop any more, at most 21 times
//= f2c::pp::DubinsCurvesCC::createSimpleTurn(**) ;opaque=*loop_detected(*
Path dubins_cc(f2c::pp::DubinsCurvesCC& t, const Robot& r, double d, double a, double b) {
  steer::State s = pose(0, 0, a, 0), e = pose(d, 0, b, 0);
  double n = 0;
  for (;;) {
    CC00_Dubins_State_Space ss(r.getMaxCurv() / (1 + 0.05 * n), r.getMaxDiffCurv() / (1 + 0.2 * n), t.getDiscretization(), true);
    bool again = f2c::pp::loop_detected(ss.get_controls(s, e)) && n <= 20;
    if (!again) return f2c::pp::steerStatesToPath(ss.get_path(s, e), r.getTurnVel());
    n = n + 1;
  }
}
//= f2c::pp::DubinsCurvesCC::createConstrainedTurn(**) ;opaque=*loop_detected(*
Path constrained(f2c::pp::DubinsCurvesCC& t, const Robot& r, const Point& p, double a, double k, const Point& q, double b, double m, bool fix) {
  steer::State s = pose(p->getX(), p->getY(), a, k), e = pose(q->getX(), q->getY(), b, m);
  for (double n = 0;; n = n + 1) {
    CC_Dubins_State_Space ss(r.getMaxCurv() / (1 + 0.05 * n), r.getMaxDiffCurv() / (1 + 0.2 * n), t.getDiscretization(), true);
    bool again = fix && f2c::pp::loop_detected(ss.get_controls(s, e)) && n <= 20;
    if (!again) return f2c::pp::steerStatesToPath(ss.get_path(s, e), r.getTurnVel());
  }
}
}
