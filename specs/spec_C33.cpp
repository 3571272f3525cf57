// Decomposition of fields by lines.
#include "raw.h"
namespace spec {
typedef f2c::decomp::TrapezoidalDecomp TD;
typedef f2c::decomp::BoustrophedonDecomp BD;
typedef f2c::obj::DecompObjective DO;
// two opposite lines from every corner of every ring of every cell until the border
MultiLineString lhs_trapezes(TD& d, const Cells& cs) { return d.genSplitLines(cs); }
//= spec::lhs_trapezes ;opaque=*Cells::createLineUntilBorder(*
MultiLineString trapezes(TD& d, const Cells& cs) {
  MultiLineString r;
  for (size_t i = 0; i < cs.size(); ++i) {
    Cell c = cs.getGeometry(i);
    for (size_t j = 0; j < c.size(); ++j) {
      LinearRing g = c.getGeometry(j);
      for (size_t k = 0; k < g.size(); ++k)
        for (int s = 0; s < 2; ++s) r.addGeometry(cs.createLineUntilBorder(g.getGeometry(k), d.getSplitAngle() + s * M_PI));
    }
  }
  return r;
}
inline bool same_place(const Point& a, const Point& b) { return a == b; }
inline bool edge(const LinearRing& g, const LineString& l) {
  if (n_points(l.get()) == 0) return false;
  Point a = raw_point(l.get(), 0), b = raw_point(l.get(), n_points(l.get()) - 1);
  for (size_t i = 0; i + 1 < n_points(g.get()); ++i) {
    Point p = raw_point(g.get(), i), q = raw_point(g.get(), i + 1);
    if (a == p && b == q || a == q && b == p) return true;
  }
  return false;
}
//= f2c::decomp::BoustrophedonDecomp::isLinePartOfLinearRing(**) const
bool is_edge(const BD& d, const LinearRing& g, const LineString& l) { return edge(g, l); }
inline LineString leave(const BD& d, const Cell& c, const LinearRing& g, const Point& p, double a) {
  LineString l = c.createLineUntilBorder(p, a);
  while (d.isLinePartOfLinearRing(g, l)) l = c.createLineUntilBorder(l.endPoint(), a);
  return l;
}
bool lhs_along_edge(BD& d, const LinearRing& r, size_t i) { assume(i + 1 < r.size()); LineString l; l.addPoint(r.getGeometry(i)); l.addPoint(r.getGeometry(i + 1)); return d.isLinePartOfLinearRing(r, l); }
//= spec::lhs_along_edge
bool along_edge(BD& d, const LinearRing& r, size_t i) { assume(i + 1 < r.size()); return true; }
bool lhs_against_edge(BD& d, const LinearRing& r, size_t i) { assume(i + 1 < r.size()); LineString l; l.addPoint(r.getGeometry(i + 1)); l.addPoint(r.getGeometry(i)); return d.isLinePartOfLinearRing(r, l); }
//= spec::lhs_against_edge
bool against_edge(BD& d, const LinearRing& r, size_t i) { assume(i + 1 < r.size()); return true; }
MultiLineString lhs_oxen(BD& d, const Cells& cs) { return d.genSplitLines(cs); }
//= spec::lhs_oxen ;time=240 ;opaque=*Cell::createLineUntilBorder(*|*isLinePartOfLinearRing(*
MultiLineString oxen(BD& d, const Cells& cs) {
  MultiLineString r;
  for (size_t i = 0; i < cs.size(); ++i) {
    Cell c = cs.getGeometry(i);
    for (size_t j = 0; j < c.size(); ++j) {
      LinearRing g = c.getGeometry(j);
      for (size_t k = 0; k < g.size(); ++k) {
        LineString a = leave(d, c, g, g.getGeometry(k), d.getSplitAngle()), b = leave(d, c, g, g.getGeometry(k), d.getSplitAngle() + M_PI);
        if (a->get_Length() > 1e-5 && b->get_Length() > 1e-5) { r.addGeometry(a); r.addGeometry(b); }
      }
    }
  }
  return r;
}
// cells are split by those lines, and not merged
Cells lhs_split(TD& d, const Cells& cs) { DO o; return d.split(cs, o); }
//= spec::lhs_split ;opaque=*genSplitLines(*|*Cells::splitByLine(*
Cells split(TD& d, const Cells& cs) { DO o; return cs.splitByLine(d.genSplitLines(cs, o)); }
Cells lhs_split2(BD& d, const Cells& cs) { DO o; return d.split(cs, o); }
//= spec::lhs_split2 ;opaque=*genSplitLines(*|*Cells::splitByLine(*
Cells split2(BD& d, const Cells& cs) { DO o; return cs.splitByLine(d.genSplitLines(cs, o)); }
Cells lhs_decompose(TD& d, const Cells& cs) { return d.decompose(cs); }
//= spec::lhs_decompose ;opaque=*genSplitLines(*|*Cells::splitByLine(*
Cells decompose(TD& d, const Cells& cs) { DO o; return d.split(cs, o); }
Cells lhs_decompose2(BD& d, const Cells& cs) { return d.decompose(cs); }
//= spec::lhs_decompose2 ;opaque=*genSplitLines(*|*Cells::splitByLine(*
Cells decompose2(BD& d, const Cells& cs) { DO o; return d.split(cs, o); }
Cells lhs_merge(TD& d, const Cells& cs) { DO o; return d.merge(cs, o); }
//= spec::lhs_merge
Cells merge(TD& d, const Cells& cs) { return cs; }
double lhs_angle(TD& d, double a) { d.setSplitAngle(a); return d.getSplitAngle(); }
//= spec::lhs_angle
double angle(TD& d, double a) { return a; }
double lhs_angle2(BD& d, double a) { d.setSplitAngle(a); return d.getSplitAngle(); }
//= spec::lhs_angle2
double angle2(BD& d, double a) { return a; }
double lhs_angle0() { BD d; return d.getSplitAngle(); }
//= spec::lhs_angle0
double angle0() { return 0; }
// each line splits what the ones before have left
Cells lhs_lines(const Cells& c, const MultiLineString& m) { return c.splitByLine(m); }
//= spec::lhs_lines ;opaque=*Cells::splitByLine(const f2c::types::LineString*
Cells lines(const Cells& c, const MultiLineString& m) {
  Cells r = c;
  for (size_t i = 0; i < m.size(); ++i) r = r.splitByLine(m.getGeometry(i));
  return r;
}
}
