// A robot: independent attributes, and the ones derived from them.
#include "spec.h"
#include <cmath>
namespace spec {
struct RobotView { std::string name; double width, cov, cruise, turn, radius, curv, dcurv; };
inline RobotView view(const Robot& r) {
  return {r.getName(), r.getWidth(), r.getCovWidth(), r.getCruiseVel(), r.getTurnVel(), r.getMinTurningRadius(), r.getMaxCurv(), r.getMaxDiffCurv()};
}
inline double radius(double c) { return 1. / (c + 1e-7); }
RobotView lhs_default() { return view(Robot()); }
//= spec::lhs_default
RobotView make_default() { return {"", 0.0, 0.0, 1.0, 1.0, radius(1.0), 1.0, 0.3}; }
RobotView lhs_make(double w, double c, double k, double d) { return view(Robot(w, c, k, d)); }
//= spec::lhs_make
RobotView make(double w, double c, double k, double d) {
  if (w <= 0.0 || c < 0.0) throw std::out_of_range("");
  return {"", w, c == 0.0 ? w : c, 1.0, 1.0, radius(std::fabs(k)), std::fabs(k), std::fabs(d)};
}
RobotView lhs_make2(double w, double c) { return view(Robot(w, c)); }
//= spec::lhs_make2
RobotView make2(double w, double c) {
  if (w <= 0.0 || c < 0.0) throw std::out_of_range("");
  return {"", w, c == 0.0 ? w : c, 1.0, 1.0, radius(1.0), 1.0, 0.3};
}
RobotView lhs_name(Robot& r, const std::string& v) { r.setName(v); return view(r); }
//= spec::lhs_name
RobotView name(Robot& r, const std::string& v) { RobotView w = view(r); w.name = v; return w; }
RobotView lhs_width(Robot& r, double v) { r.setWidth(v); return view(r); }
//= spec::lhs_width
RobotView width(Robot& r, double v) { RobotView w = view(r); w.width = v; return w; }
RobotView lhs_cov(Robot& r, double v) { r.setCovWidth(v); return view(r); }
//= spec::lhs_cov
RobotView cov(Robot& r, double v) { RobotView w = view(r); w.cov = v; return w; }
RobotView lhs_turn(Robot& r, double v) { r.setTurnVel(v); return view(r); }
//= spec::lhs_turn
RobotView turn(Robot& r, double v) { RobotView w = view(r); w.turn = v; return w; }
RobotView lhs_curv(Robot& r, double v) { r.setMaxCurv(v); return view(r); }
//= spec::lhs_curv
RobotView curv(Robot& r, double v) { RobotView w = view(r); w.curv = std::fabs(v); w.radius = radius(std::fabs(v)); return w; }
RobotView lhs_radius(Robot& r, double v) { r.setMinTurningRadius(v); return view(r); }
//= spec::lhs_radius
RobotView set_radius(Robot& r, double v) { RobotView w = view(r); w.curv = 1.0 / (std::fabs(v) + 1e-7); w.radius = radius(w.curv); return w; }
RobotView lhs_dcurv(Robot& r, double v) { r.setMaxDiffCurv(v); return view(r); }
//= spec::lhs_dcurv
RobotView dcurv(Robot& r, double v) { RobotView w = view(r); w.dcurv = std::fabs(v); return w; }
// until a turning velocity is set, turns are made at the cruise velocity
RobotView lhs_cruise_new(double w, double v) { Robot r(w); r.setCruiseVel(v); return view(r); }
//= spec::lhs_cruise_new
RobotView cruise_new(double w, double v) { RobotView x = view(Robot(w)); x.cruise = v; x.turn = v; return x; }
// and afterwards at the velocity set, whatever the cruise velocity becomes
RobotView lhs_cruise_set(Robot& r, double t, double v) { r.setTurnVel(t); r.setCruiseVel(v); return view(r); }
//= spec::lhs_cruise_set
RobotView cruise_set(Robot& r, double t, double v) { RobotView x = view(r); x.cruise = v; x.turn = t; return x; }
RobotView lhs_copy(const Robot& r) { Robot q(r); return view(q); }
//= spec::lhs_copy
RobotView copy(const Robot& r) { return view(r); }
RobotView lhs_assign(Robot& q, const Robot& r) { q = r; return view(q); }
//= spec::lhs_assign
RobotView assign(Robot& q, const Robot& r) { return view(r); }
}
