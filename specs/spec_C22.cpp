// Costs of swaths and of decompositions and headlands.
#include "swath.h"
#include <cmath>
namespace spec {
using namespace f2c::obj;
// sums over the parts
//= f2c::obj::SGObjective::computeCost(const f2c::types::Swaths &)
double swaths(SGObjective& o, const Swaths& ss) { double r = 0; for (size_t i = 0; i < ss.size(); ++i) r += o.computeCost(ss.at(i)); return r; }
//= f2c::obj::SGObjective::computeCost(const f2c::types::SwathsByCells &)
double bycells(SGObjective& o, const SwathsByCells& ss) { double r = 0; for (size_t i = 0; i < ss.size(); ++i) r += o.computeCost(ss.at(i)); return r; }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Cells &)
double cells(SGObjective& o, const Cells& cs) { double r = 0; for (size_t i = 0; i < cs.size(); ++i) r += o.computeCost(cs.getGeometry(i)); return r; }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Cell &, const f2c::types::Swaths &)
double cell_swaths(SGObjective& o, const Cell& c, const Swaths& ss) { double r = 0; for (size_t i = 0; i < ss.size(); ++i) r += o.computeCost(c, ss.at(i)); return r; }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Cells &, const f2c::types::Swaths &)
double cells_swaths(SGObjective& o, const Cells& c, const Swaths& ss) { double r = 0; for (size_t i = 0; i < ss.size(); ++i) r += o.computeCost(c, ss.at(i)); return r; }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Cell &, const f2c::types::SwathsByCells &)
double cell_bycells(SGObjective& o, const Cell& c, const SwathsByCells& ss) { double r = 0; for (size_t i = 0; i < ss.size(); ++i) r += o.computeCost(c, ss.at(i)); return r; }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Cells &, const f2c::types::SwathsByCells &)
double cells_bycells(SGObjective& o, const Cells& c, const SwathsByCells& ss) { double r = 0; for (size_t i = 0; i < ss.size(); ++i) r += o.computeCost(c, ss.at(i)); return r; }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Cell &, const f2c::types::Swath &)
double cell_swath(SGObjective& o, const Cell& c, const Swath& s) { return o.computeCost(c) + o.computeCost(s); }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Cells &, const f2c::types::Swath &)
double cells_swath(SGObjective& o, const Cells& c, const Swath& s) { return o.computeCost(c) + o.computeCost(s); }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Swath &)
double swath0(SGObjective& o, const Swath& s) { return 0; }
//= f2c::obj::SGObjective::computeCost(double, double, **)
double angle0(SGObjective& o, double a, double w, const Cell& c) { return 0; }
//= f2c::obj::SGObjective::computeCost(const f2c::types::Cell &)
double cell0(SGObjective& o, const Cell& c) { return o.computeCost(0.0, 0.0, c); }
// number and length of swaths
double lhs_count(const Swaths& ss) { NSwath o; return o.computeCost(ss); }
//= spec::lhs_count
double count(const Swaths& ss) { return ss.size(); }
double lhs_count1(const Swath& s) { NSwath o; return o.computeCost(s); }
//= spec::lhs_count1
double count1(const Swath& s) { return 1; }
double lhs_countc(const SwathsByCells& ss) { NSwath o; return static_cast<SGObjective&>(o).computeCost(ss); }
//= spec::lhs_countc
double countc(const SwathsByCells& ss) { double n = 0; for (size_t i = 0; i < ss.size(); ++i) n += ss.at(i).size(); return n; }
double lhs_len(const Swath& s) { SwathLength o; return o.computeCost(s); }
//= spec::lhs_len
double len(const Swath& s) { return s.getPath()->get_Length(); }
double lhs_lens(const Swaths& ss) { SwathLength o; return static_cast<SGObjective&>(o).computeCost(ss); }
//= spec::lhs_lens
double lens(const Swaths& ss) { double n = 0; for (size_t i = 0; i < ss.size(); ++i) n += ss.at(i).getPath()->get_Length(); return n; }
double lhs_lensc(const SwathsByCells& ss) { SwathLength o; return static_cast<SGObjective&>(o).computeCost(ss); }
//= spec::lhs_lensc
double lensc(const SwathsByCells& ss) {
  double n = 0;
  for (size_t i = 0; i < ss.size(); ++i) for (size_t j = 0; j < ss.at(i).size(); ++j) n += ss.at(i).at(j).getPath()->get_Length();
  return n;
}
// a cell adds nothing to the cost of its swaths
double lhs_SwathLength_Cell_Swath(const Cell& c, const Swath& s) { SwathLength o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_SwathLength_Cell_Swath
double SwathLength_Cell_Swath(const Cell& c, const Swath& s) { SwathLength o; return s.getPath()->get_Length(); }
double lhs_SwathLength_Cell_Swaths(const Cell& c, const Swaths& s) { SwathLength o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_SwathLength_Cell_Swaths
double SwathLength_Cell_Swaths(const Cell& c, const Swaths& s) { SwathLength o; double n = 0; for (size_t i = 0; i < s.size(); ++i) n += s.at(i).getPath()->get_Length(); return n; }
double lhs_SwathLength_Cell_SwathsByCells(const Cell& c, const SwathsByCells& s) { SwathLength o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_SwathLength_Cell_SwathsByCells
double SwathLength_Cell_SwathsByCells(const Cell& c, const SwathsByCells& s) { SwathLength o; double n = 0; for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s.at(i).size(); ++j) n += s.at(i).at(j).getPath()->get_Length(); return n; }
double lhs_SwathLength_Cells_Swath(const Cells& c, const Swath& s) { SwathLength o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_SwathLength_Cells_Swath
double SwathLength_Cells_Swath(const Cells& c, const Swath& s) { SwathLength o; return s.getPath()->get_Length(); }
double lhs_SwathLength_Cells_Swaths(const Cells& c, const Swaths& s) { SwathLength o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_SwathLength_Cells_Swaths
double SwathLength_Cells_Swaths(const Cells& c, const Swaths& s) { SwathLength o; double n = 0; for (size_t i = 0; i < s.size(); ++i) n += s.at(i).getPath()->get_Length(); return n; }
double lhs_SwathLength_Cells_SwathsByCells(const Cells& c, const SwathsByCells& s) { SwathLength o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_SwathLength_Cells_SwathsByCells
double SwathLength_Cells_SwathsByCells(const Cells& c, const SwathsByCells& s) { SwathLength o; double n = 0; for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s.at(i).size(); ++j) n += s.at(i).at(j).getPath()->get_Length(); return n; }
double lhs_NSwath_Cell_Swath(const Cell& c, const Swath& s) { NSwath o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_NSwath_Cell_Swath
double NSwath_Cell_Swath(const Cell& c, const Swath& s) { NSwath o; return 1; }
double lhs_NSwath_Cell_Swaths(const Cell& c, const Swaths& s) { NSwath o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_NSwath_Cell_Swaths
double NSwath_Cell_Swaths(const Cell& c, const Swaths& s) { NSwath o; double n = 0; for (size_t i = 0; i < s.size(); ++i) n += 1; return n; }
double lhs_NSwath_Cell_SwathsByCells(const Cell& c, const SwathsByCells& s) { NSwath o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_NSwath_Cell_SwathsByCells
double NSwath_Cell_SwathsByCells(const Cell& c, const SwathsByCells& s) { NSwath o; double n = 0; for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s.at(i).size(); ++j) n += 1; return n; }
double lhs_NSwath_Cells_Swath(const Cells& c, const Swath& s) { NSwath o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_NSwath_Cells_Swath
double NSwath_Cells_Swath(const Cells& c, const Swath& s) { NSwath o; return 1; }
double lhs_NSwath_Cells_Swaths(const Cells& c, const Swaths& s) { NSwath o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_NSwath_Cells_Swaths
double NSwath_Cells_Swaths(const Cells& c, const Swaths& s) { NSwath o; double n = 0; for (size_t i = 0; i < s.size(); ++i) n += 1; return n; }
double lhs_NSwath_Cells_SwathsByCells(const Cells& c, const SwathsByCells& s) { NSwath o; return static_cast<SGObjective&>(o).computeCost(c, s); }
//= spec::lhs_NSwath_Cells_SwathsByCells
double NSwath_Cells_SwathsByCells(const Cells& c, const SwathsByCells& s) { NSwath o; double n = 0; for (size_t i = 0; i < s.size(); ++i) for (size_t j = 0; j < s.at(i).size(); ++j) n += 1; return n; }
// estimate of the number of swaths: half the extent of the border across the swaths
double lhs_estimate(double ang, double w, const Cell& c) { assume(c.size() > 0); NSwathModified o; return o.computeCost(ang, w, c); }
//= spec::lhs_estimate
double estimate(double ang, double w, const Cell& c) {
  assume(c.size() > 0);
  if (w <= 0) return 0;
  double sum = 0;
  for (size_t r = 0; r < c.size(); ++r) {
    LinearRing g = c.getGeometry(r);
    size_t n = n_points(g.get());
    for (size_t i = 0; i < n; ++i) {
      size_t b = i == 0 ? n - 1 : i - 1;
      double dx = g->getX(i) - g->getX(b), dy = g->getY(i) - g->getY(b);
      sum += fabs(cos(ang) * dy - sin(ang) * dx);
    }
  }
  return sum / (2 * w);
}
double lhs_estimate0(double ang, double w) { NSwathModified o; return o.computeCost(ang, w, Cell()); }
//= spec::lhs_estimate0
double estimate0(double ang, double w) { return 0; }
// the part of the field the swaths cover
double lhs_cover(const Cells& c, const Swaths& ss) { FieldCoverage o; return o.computeCost(c, ss); }
//= spec::lhs_cover
double cover(const Cells& c, const Swaths& ss) {
  if (ss.size() == 0) return 0;
  MultiLineString m;
  for (size_t i = 0; i < ss.size(); ++i) m.addGeometry(ss.at(i).getPath());
  Cells b = Cells::buffer(m, ss.at(0).getWidth() / 2);
  return c.intersection(b).area() / c.area();
}
double lhs_cover1(const Cell& c, const Swaths& ss) { assume(ss.size() > 0); FieldCoverage o; return o.computeCost(c, ss); }
//= spec::lhs_cover1
double cover1(const Cell& c, const Swaths& ss) { assume(ss.size() > 0); FieldCoverage o; return o.computeCost(Cells(c), ss); }
// the area covered more than once, of every pair of swaths
double lhs_overlap(const Cells& c, const Swaths& ss) { Overlaps o; return o.computeCost(c, ss); }
//= spec::lhs_overlap
double overlap(const Cells& c, const Swaths& ss) {
  double a = 0;
  for (size_t i = 0; i < ss.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      Cells x = ss.at(i).areaCovered(c), y = ss.at(j).areaCovered(c);
      if (x.intersects(y)) a += x.intersection(y).area();
    }
  return a / c.area();
}
double lhs_overlap1(const Cell& c, const Swaths& ss) { Overlaps o; return o.computeCost(c, ss); }
//= spec::lhs_overlap1
double overlap1(const Cell& c, const Swaths& ss) { Overlaps o; return o.computeCost(Cells(c), ss); }
// what is minimised
bool lhs_sg() { NSwath a; SwathLength b; Overlaps c; NSwathModified d; return a.isMinimizing() && b.isMinimizing() && c.isMinimizing() && d.isMinimizing() && !a.isMaximizing() && !b.isMaximizing() && !c.isMaximizing() && !d.isMaximizing(); }
//= spec::lhs_sg
bool sg() { return true; }
bool lhs_max() { FieldCoverage a; RemArea b; return a.isMaximizing() && b.isMaximizing() && !a.isMinimizing() && !b.isMinimizing(); }
//= spec::lhs_max
bool max() { return true; }
bool lhs_other() { DirectDistPathObj a; PathLength b; DecompObjective c; return a.isMinimizing() && b.isMinimizing() && c.isMinimizing() && !a.isMaximizing() && !b.isMaximizing() && !c.isMaximizing(); }
//= spec::lhs_other
bool other() { return true; }
bool lhs_fast() { FieldCoverage a; NSwath b; SwathLength c; Overlaps d; NSwathModified e; return a.isFastCompAvailable() || b.isFastCompAvailable() || c.isFastCompAvailable() || d.isFastCompAvailable() || !e.isFastCompAvailable(); }
//= spec::lhs_fast
bool fast() { return false; }
double lhs_sign_cover(const Cell& c, const Swaths& ss) { assume(ss.size() > 0); FieldCoverage o; return o.computeCostWithMinimizingSign(c, ss); }
//= spec::lhs_sign_cover
double sign_cover(const Cell& c, const Swaths& ss) { assume(ss.size() > 0); FieldCoverage o; return -o.computeCost(c, ss); }
double lhs_sign_len(const Swath& s) { SwathLength o; return o.computeCostWithMinimizingSign(s); }
//= spec::lhs_sign_len
double sign_len(const Swath& s) { SwathLength o; return o.computeCost(s); }
double lhs_sign_mod(double a, double w, const Cell& c) { assume(c.size() > 0); NSwathModified o; return o.computeCostWithMinimizingSign(a, w, c); }
//= spec::lhs_sign_mod
double sign_mod(double a, double w, const Cell& c) { assume(c.size() > 0); NSwathModified o; return o.computeCost(a, w, c); }
double lhs_sign_rem(const Cells& a, const Cells& b) { RemArea o; return o.computeCostWithMinimizingSign(a, b); }
//= spec::lhs_sign_rem
double sign_rem(const Cells& a, const Cells& b) { RemArea o; return -o.computeCost(a, b); }
// headlands: the part of the field that remains
//= f2c::obj::HGObjective::computeCost(const f2c::types::Cells &, const f2c::types::Cells &)
double remains(HGObjective& o, const Cells& t, const Cells& r) { return 1 - t.difference(r).area() / t.area(); }
double lhs_remains1(const Cell& t, const Cell& r) { HGObjective o; return o.computeCost(t, r); }
//= spec::lhs_remains1
double remains1(const Cell& t, const Cell& r) { HGObjective o; return o.computeCost(Cells(t), Cells(r)); }
double lhs_remains2(const Cell& t, const Cells& r) { HGObjective o; return o.computeCost(t, r); }
//= spec::lhs_remains2
double remains2(const Cell& t, const Cells& r) { HGObjective o; return o.computeCost(Cells(t), r); }
double lhs_remains3(const Cells& t, const Cell& r) { HGObjective o; return o.computeCost(t, r); }
//= spec::lhs_remains3
double remains3(const Cells& t, const Cell& r) { HGObjective o; return o.computeCost(t, Cells(r)); }
//= f2c::obj::DecompObjective::computeCost(const f2c::types::Cells &)
double decomp(DecompObjective& o, const Cells& c) { return 0; }
//= f2c::obj::PPObjective::computeCost(const f2c::types::Path &)
double pathlen(PPObjective& o, const Path& p) { double r = 0; for (size_t i = 0; i < p.size(); ++i) r += fabs(p.getState(i).len); return r; }
}
