// Swath generation and decomposition.
#include "swath.h"
#include <cmath>
namespace spec {
typedef f2c::sg::BruteForce BF;
inline std::vector<SwathView> sv(const Swaths& s) { std::vector<SwathView> r; for (size_t i = 0; i < s.size(); ++i) r.push_back(view(s.at(i))); return r; }
// parallel lines across the cell, one width apart, the first half a width inside, cut to the cell
std::vector<SwathView> lhs_parallel(BF& g, double a, double w, const Cell& c) { assume(w > 0); return sv(g.generateSwaths(a, w, c)); }
//= spec::lhs_parallel ;opaque=*Cell::createStraightLongLine(*|*Swaths::append(*
std::vector<SwathView> parallel(BF& g, double a, double w, const Cell& c) {
  assume(w > 0);
  Cell r = Point(0, 0).rotateFromPoint(-a, c);
  double h = r.getHeight();
  LineString base = r.createStraightLongLine(Point(r.getDimMinX(), r.getDimMinY()), 0);
  double room = g.getAllowOverlap() ? 0 : w / 2;
  MultiLineString lines;
  for (int k = 0; h > w * k - w / 2 + room; ++k)
    lines.addGeometry(Point(0, 0).rotateFromPoint(a, base + Point(0, w * k + w / 2)));
  Swaths s;
  s.append(lines, c, w, SwathType::MAINLAND);
  return sv(s);
}
inline std::vector<std::vector<SwathView>> cv(const SwathsByCells& s) { std::vector<std::vector<SwathView>> r; for (size_t i = 0; i < s.size(); ++i) r.push_back(sv(s.at(i))); return r; }
// every cell by itself, in order
std::vector<std::vector<SwathView>> lhs_cells(BF& g, double a, double w, const Cells& c) { return cv(g.generateSwaths(a, w, c)); }
//= spec::lhs_cells ;opaque=*SwathGeneratorBase::generateSwaths(double, double, const f2c::types::Cell &*
std::vector<std::vector<SwathView>> cells(BF& g, double a, double w, const Cells& c) {
  std::vector<std::vector<SwathView>> r;
  for (size_t i = 0; i < c.size(); ++i) r.push_back(sv(g.generateSwaths(a, w, c.getGeometry(i))));
  return r;
}
// the best swaths are those of the best angle
std::vector<SwathView> lhs_best(BF& g, double w, const Cell& c) { f2c::obj::NSwath o; return sv(g.generateBestSwaths(o, w, c)); }
//= spec::lhs_best ;opaque=*SwathGeneratorBase::generateSwaths(double, double, const f2c::types::Cell &*|*computeCostOfAngle(*
std::vector<SwathView> best(BF& g, double w, const Cell& c) { f2c::obj::NSwath o; double a = g.computeBestAngle(o, w, c); return sv(g.generateSwaths(a, w, c)); }
std::vector<std::vector<SwathView>> lhs_bests(BF& g, double w, const Cells& c) { f2c::obj::NSwath o; return cv(g.generateBestSwaths(o, w, c)); }
//= spec::lhs_bests ;opaque=*generateSwaths(double, double, const f2c::types::Cell &*|*computeBestAngle(*
std::vector<std::vector<SwathView>> bests(BF& g, double w, const Cells& c) {
  f2c::obj::NSwath o;
  std::vector<std::vector<SwathView>> r;
  for (size_t i = 0; i < c.size(); ++i) { double a = g.computeBestAngle(o, w, c.getGeometry(i)); r.push_back(sv(g.generateSwaths(a, w, c.getGeometry(i)))); }
  return r;
}
// the cost of an angle, with minimising sign: from the estimate if there is one, or from the swaths
double lhs_cost_fast(BF& g, double a, double w, const Cell& c) { f2c::obj::NSwathModified o; return g.computeCostOfAngle(o, a, w, c); }
//= spec::lhs_cost_fast ;opaque=*NSwathModified::computeCost(*
double cost_fast(BF& g, double a, double w, const Cell& c) { f2c::obj::NSwathModified o; return o.computeCost(a, w, c); }
double lhs_cost_len(BF& g, double a, double w, const Cell& c) { f2c::obj::SwathLength o; return g.computeCostOfAngle(o, a, w, c); }
//= spec::lhs_cost_len ;opaque=*SwathGeneratorBase::generateSwaths(double, double, const f2c::types::Cell &*
double cost_len(BF& g, double a, double w, const Cell& c) { f2c::obj::SwathLength o; Swaths s = g.generateSwaths(a, w, c); return static_cast<f2c::obj::SGObjective&>(o).computeCost(c, s); }
double lhs_cost_cover(BF& g, double a, double w, const Cell& c) { f2c::obj::FieldCoverage o; return g.computeCostOfAngle(o, a, w, c); }
//= spec::lhs_cost_cover ;opaque=*SwathGeneratorBase::generateSwaths(double, double, const f2c::types::Cell &*|*FieldCoverage::computeCost(*
double cost_cover(BF& g, double a, double w, const Cell& c) { f2c::obj::FieldCoverage o; Swaths s = g.generateSwaths(a, w, c); return -o.computeCost(c, s); }
// the best angle is the first of least cost of a whole turn in steps
double lhs_angle(BF& g, double w, const Cell& c) { assume(g.getStepAngle() > 0.5); f2c::obj::NSwathModified o; return g.computeBestAngle(o, w, c); }
//= spec::lhs_angle ;opaque=*NSwathModified::computeCost(*
double angle(BF& g, double w, const Cell& c) {
  assume(g.getStepAngle() > 0.5);
  f2c::obj::NSwathModified o;
  int n = static_cast<int>(2 * M_PI / g.getStepAngle());
  double best = 0;
  for (int i = 1; i < n; ++i) if (o.computeCost(i * g.getStepAngle(), w, c) < o.computeCost(best, w, c)) best = i * g.getStepAngle();
  return best;
}
double lhs_step(BF& g, double d) { g.setStepAngle(d); return g.getStepAngle(); }
//= spec::lhs_step
double step(BF& g, double d) { return d; }
double lhs_step0() { BF g; return g.getStepAngle(); }
//= spec::lhs_step0
double step0() { return M_PI / 180; }
bool lhs_overlap(BF& g, bool b) { g.setAllowOverlap(b); return g.getAllowOverlap(); }
//= spec::lhs_overlap
bool overlap(BF& g, bool b) { return b; }
bool lhs_overlap0() { BF g; return g.getAllowOverlap(); }
//= spec::lhs_overlap0
bool overlap0() { return false; }
}
