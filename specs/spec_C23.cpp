// Costs of moves, of swaths in order, and of routes.
#include "swath.h"
#include <cmath>
namespace spec {
using f2c::obj::RPObjective;
typedef f2c::obj::CompleteTurnPathObj<f2c::pp::DubinsCurves> Turns;
typedef f2c::obj::DirectDistPathObj Direct;
inline double dist(const Point& a, const Point& b) { return sqrt((px(a) - px(b)) * (px(a) - px(b)) + (py(a) - py(b)) * (py(a) - py(b))); }
inline Point first(const Swath& s) { return raw_point(s.getPath().get(), 0); }
inline Point last(const Swath& s) { return raw_point(s.getPath().get(), n_points(s.getPath().get()) - 1); }
inline void proper(const Swath& s) { assume(n_points(s.getPath().get()) > 1); }
inline void proper(const Swaths& s) { for (size_t i = 0; i < s.size(); ++i) proper(s.at(i)); }
inline double walk(const Swath& s) { double d = 0; for (size_t i = 1; i < n_points(s.getPath().get()); ++i) d += dist(raw_point(s.getPath().get(), i - 1), raw_point(s.getPath().get(), i)); return d; }
inline double walk(const Swaths& s) {
  double d = 0;
  for (size_t i = 0; i < s.size(); ++i) d += walk(s.at(i));
  for (size_t i = 1; i < s.size(); ++i) d += dist(last(s.at(i - 1)), first(s.at(i)));
  return d;
}
inline double walk(const MultiPoint& m) { double d = 0; for (size_t i = 1; i < m.size(); ++i) d += dist(m.getGeometry(i - 1), m.getGeometry(i)); return d; }
// straight moves
double lhs_pp(const Point& a, const Point& b) { Direct o; return o.computeCost(a, b); }
//= spec::lhs_pp
double pp(const Point& a, const Point& b) { return dist(a, b); }
double lhs_pap(const Point& a, double x, const Point& b) { Direct o; return static_cast<RPObjective&>(o).computeCost(a, x, b); }
//= spec::lhs_pap
double pap(const Point& a, double x, const Point& b) { return dist(a, b); }
double lhs_ppa(const Point& a, const Point& b, double y) { Direct o; return static_cast<RPObjective&>(o).computeCost(a, b, y); }
//= spec::lhs_ppa
double ppa(const Point& a, const Point& b, double y) { return dist(a, b); }
double lhs_papa(const Point& a, double x, const Point& b, double y) { Direct o; return static_cast<RPObjective&>(o).computeCost(a, x, b, y); }
//= spec::lhs_papa
double papa(const Point& a, double x, const Point& b, double y) { return dist(a, b); }
double lhs_sp(const Swath& s, const Point& p) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(s, p); }
//= spec::lhs_sp
double sp(const Swath& s, const Point& p) { proper(s); return dist(last(s), p); }
double lhs_spa(const Swath& s, const Point& p, double x) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(s, p, x); }
//= spec::lhs_spa
double spa(const Swath& s, const Point& p, double x) { proper(s); return dist(last(s), p); }
double lhs_ps(const Point& p, const Swath& s) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(p, s); }
//= spec::lhs_ps
double ps(const Point& p, const Swath& s) { proper(s); return dist(p, first(s)); }
double lhs_pas(const Point& p, double x, const Swath& s) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(p, x, s); }
//= spec::lhs_pas
double pas(const Point& p, double x, const Swath& s) { proper(s); return dist(p, first(s)); }
double lhs_ss(const Swath& a, const Swath& b) { proper(a); proper(b); Direct o; return static_cast<RPObjective&>(o).computeCost(a, b); }
//= spec::lhs_ss
double ss(const Swath& a, const Swath& b) { proper(a); proper(b); return dist(last(a), first(b)); }
double lhs_vec(const std::vector<Point>& v) { Direct o; return static_cast<RPObjective&>(o).computeCost(v); }
//= spec::lhs_vec
double vec(const std::vector<Point>& v) { double d = 0; for (size_t i = 0; i + 1 < v.size(); ++i) d += dist(v[i], v[i + 1]); return d; }
double lhs_multi(const MultiPoint& m) { Direct o; return static_cast<RPObjective&>(o).computeCost(m); }
//= spec::lhs_multi
double multi(const MultiPoint& m) { return walk(m); }
double lhs_swath(const Swath& s) { Direct o; return static_cast<RPObjective&>(o).computeCost(s); }
//= spec::lhs_swath
double swath(const Swath& s) { return walk(s); }
double lhs_swaths(const Swaths& s) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(s); }
//= spec::lhs_swaths
double swaths(const Swaths& s) { proper(s); return walk(s); }
double lhs_sm(const Swath& s, const MultiPoint& m) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(s, m); }
//= spec::lhs_sm
double sm(const Swath& s, const MultiPoint& m) { proper(s); return m.size() == 0 ? 0 : dist(last(s), m.getGeometry(0)); }
double lhs_ms(const MultiPoint& m, const Swath& s) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(m, s); }
//= spec::lhs_ms
double ms(const MultiPoint& m, const Swath& s) { proper(s); return m.size() == 0 ? 0 : dist(m.getGeometry(m.size() - 1), first(s)); }
double lhs_ssm(const Swaths& s, const MultiPoint& m) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(s, m); }
//= spec::lhs_ssm
double ssm(const Swaths& s, const MultiPoint& m) { proper(s); return s.size() == 0 || m.size() == 0 ? 0 : dist(last(s.at(s.size() - 1)), m.getGeometry(0)); }
double lhs_mss(const MultiPoint& m, const Swaths& s) { proper(s); Direct o; return static_cast<RPObjective&>(o).computeCost(m, s); }
//= spec::lhs_mss
double mss(const MultiPoint& m, const Swaths& s) { proper(s); return s.size() == 0 || m.size() == 0 ? 0 : dist(m.getGeometry(m.size() - 1), first(s.at(0))); }
// a route: everything that is driven, in order
inline void whole(const Route& r) {
  assume(r.sizeConnections() >= r.sizeVectorSwaths() && r.sizeConnections() <= r.sizeVectorSwaths() + 1);
  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) { assume(r.getSwaths(i).size() > 0); proper(r.getSwaths(i)); }
  for (size_t i = 1; i < r.sizeConnections(); ++i) assume(r.getConnection(i).size() > 0);
}
double lhs_route(const Route& r) { whole(r); Direct o; return static_cast<RPObjective&>(o).computeCost(r); }
//= spec::lhs_route
double route(const Route& r) {
  whole(r);
  double d = 0;
  for (size_t i = 0; i < r.sizeConnections(); ++i) d += walk(r.getConnection(i));
  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) {
    const Swaths& s = r.getSwaths(i);
    d += walk(s);
    const MultiPoint& m = r.getConnection(i);
    if (m.size() > 0) d += dist(m.getGeometry(m.size() - 1), first(s.at(0)));
    if (i + 1 < r.sizeConnections()) d += dist(last(s.at(s.size() - 1)), r.getConnection(i + 1).getGeometry(0));
  }
  return d;
}
// turns: from pose to pose, with the turn of the planner between the angles of the swaths
inline double turn(Turns& o, const Point& a, double x, const Point& b, double y) {
  Path p = o.turn_planner.createTurn(o.robot, a, x, b, y);
  double d = 0;
  for (size_t i = 0; i < p.size(); ++i) d += fabs(p.getState(i).len);
  return d;
}
double lhs_t_papa(Turns& o, const Point& a, double x, const Point& b, double y) { return o.computeCost(a, x, b, y); }
//= spec::lhs_t_papa ;opaque=*TurningBase::createTurn(*
double t_papa(Turns& o, const Point& a, double x, const Point& b, double y) { return turn(o, a, x, b, y); }
double lhs_t_ss(Turns& o, const Swath& a, const Swath& b) { proper(a); proper(b); return o.computeCost(a, b); }
//= spec::lhs_t_ss ;opaque=*TurningBase::createTurn(*
double t_ss(Turns& o, const Swath& a, const Swath& b) { proper(a); proper(b); return turn(o, a.endPoint(), a.getOutAngle(), b.startPoint(), b.getInAngle()); }
double lhs_t_pas(Turns& o, const Point& p, double x, const Swath& s) { proper(s); return o.computeCost(p, x, s); }
//= spec::lhs_t_pas ;opaque=*TurningBase::createTurn(*
double t_pas(Turns& o, const Point& p, double x, const Swath& s) { proper(s); return turn(o, p, x, s.startPoint(), s.getInAngle()); }
double lhs_t_spa(Turns& o, const Swath& s, const Point& p, double x) { proper(s); return o.computeCost(s, p, x); }
//= spec::lhs_t_spa ;opaque=*TurningBase::createTurn(*
double t_spa(Turns& o, const Swath& s, const Point& p, double x) { proper(s); return turn(o, s.endPoint(), s.getOutAngle(), p, x); }
double lhs_t_swaths(Turns& o, const Swaths& s) { proper(s); assume(s.size() > 1); return o.computeCost(s); }
//= spec::lhs_t_swaths ;opaque=*TurningBase::createTurn(*
double t_swaths(Turns& o, const Swaths& s) {
  proper(s); assume(s.size() > 1);
  double d = 0;
  for (size_t i = 0; i < s.size(); ++i) d += walk(s.at(i));
  for (size_t i = 1; i < s.size(); ++i) d += turn(o, s.at(i - 1).endPoint(), s.at(i - 1).getOutAngle(), s.at(i).startPoint(), s.at(i).getInAngle());
  return d;
}
double lhs_robot(Turns& o, const Robot& r, const Point& a, double x, const Point& b, double y) { o.setRobot(r); return o.computeCost(a, x, b, y); }
//= spec::lhs_robot ;opaque=*TurningBase::createTurn(*
double robot(Turns& o, const Robot& r, const Point& a, double x, const Point& b, double y) {
  Path p = o.turn_planner.createTurn(r, a, x, b, y);
  double d = 0;
  for (size_t i = 0; i < p.size(); ++i) d += fabs(p.getState(i).len);
  return d;
}
double lhs_made(const Robot& r, const Point& a, double x, const Point& b, double y) { Turns o(r); return o.computeCost(a, x, b, y); }
//= spec::lhs_made ;opaque=*TurningBase::createTurn(*
double made(const Robot& r, const Point& a, double x, const Point& b, double y) { Turns o; o.robot = r; return turn(o, a, x, b, y); }
}
