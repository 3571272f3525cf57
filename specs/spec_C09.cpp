// Relations between points, lines and borders.
#include "raw.h"
#include <cmath>
namespace spec {
//= f2c::types::Point::signedDistance2Segment(**) const
double signed_distance(const Point& p, const Point& s, const Point& e) {
  double vx = px(e) - px(s), vy = py(e) - py(s), vz = pz(e) - pz(s);
  return (vx * (py(p) - py(s)) - vy * (px(p) - px(s))) / std::sqrt(vx * vx + vy * vy + vz * vz);
}
//= f2c::types::Point::intersectionOfLines(**)
Point crossing(const Point& a, const Point& b, const Point& c, const Point& d) {
  double ux = px(b) - px(a), uy = py(b) - py(a), uz = pz(b) - pz(a);
  double vx = px(d) - px(c), vy = py(d) - py(c), vz = pz(d) - pz(c);
  double den = ux * vy - uy * vx;
  if (den == 0) return Point(px(a), py(a), pz(a));
  double k = px(b) * py(a) - py(b) * px(a), m = px(d) * py(c) - py(d) * px(c);
  return Point((vx * k - ux * m) / den, (vy * k - uy * m) / den, (vz * k - uz * m) / den);
}
inline Point foot(const Point& p, const Point& s, const Point& e) {
  double vx = px(e) - px(s), vy = py(e) - py(s), vz = pz(e) - pz(s);
  double vv = vx * vx + vy * vy + vz * vz;
  double t = ((px(p) - px(s)) * vx + (py(p) - py(s)) * vy + (pz(p) - pz(s)) * vz) / vv;
  if (t > 1) t = 1;
  if (t < 0) t = 0;
  return Point(px(s) + t * vx, py(s) + t * vy, pz(s) + t * vz);
}
//= f2c::types::Point::closestPointInSegment(**) const
Point on_segment(const Point& p, const Point& s, const Point& e) { return foot(p, s, e); }
inline Point nearest(const OGRLineString* s, const Point& p) {
  size_t n = n_points(s);
  in_range(0, n);
  if (n == 1) return raw_point(s, 0);
  Point best = p.closestPointInSegment(raw_point(s, 0), raw_point(s, 1));
  for (size_t i = 1; i + 1 < n; ++i) {
    Point q = p.closestPointInSegment(raw_point(s, i), raw_point(s, i + 1));
    if (q.get()->Distance(p.get()) < best.get()->Distance(p.get())) best = q;
  }
  return best;
}
//= f2c::types::LineString::closestPointTo(**) const
Point line_nearest(const LineString& s, const Point& p) { return nearest(s.get(), p); }
//= f2c::types::LinearRing::closestPointTo(**) const
Point ring_nearest(const LinearRing& s, const Point& p) { return nearest(s.get(), p); }
//= f2c::types::Cell::closestPointOnBorderTo(**) const ;opaque=*LinearRing::closestPointTo
Point cell_nearest(const Cell& s, const Point& p) {
  in_range(0, n_rings(s.get()));
  Point best = raw_ring(ring_of(s.get(), 0)).closestPointTo(p);
  for (size_t i = 1; i < n_rings(s.get()); ++i) {
    Point q = raw_ring(ring_of(s.get(), i)).closestPointTo(p);
    if (q.get()->Distance(p.get()) < best.get()->Distance(p.get())) best = q;
  }
  return best;
}
//= f2c::types::Cells::closestPointOnBorderTo(**) const ;opaque=*Cell::closestPointOnBorderTo
Point cells_nearest(const Cells& s, const Point& p) {
  in_range(0, n_members(s.get()));
  Point best = raw_cell(poly_of(s.get(), 0)).closestPointOnBorderTo(p);
  for (size_t i = 1; i < n_members(s.get()); ++i) {
    Point q = raw_cell(poly_of(s.get(), i)).closestPointOnBorderTo(p);
    if (q.get()->Distance(p.get()) < best.get()->Distance(p.get())) best = q;
  }
  return best;
}
inline double reach(const OGRGeometry* g) { OGREnvelope e; g->getEnvelope(&e); return (e.MaxX - e.MinX) + (e.MaxY - e.MinY); }
inline Point polar(const Point& p, double a, double d) { return Point(px(p) + d * std::cos(a), py(p) + d * std::sin(a)); }
inline LineString segment(const Point& a, const Point& b) {
  LineString l;
  l.get()->addPoint(px(a), py(a), pz(a));
  l.get()->addPoint(px(b), py(b), pz(b));
  return l;
}
//= f2c::types::Cell::createSemiLongLine(**) const
LineString cell_ray(const Cell& s, const Point& p, double a) { return segment(p, polar(p, a, reach(s.get()))); }
//= f2c::types::Cells::createSemiLongLine(**) const
LineString cells_ray(const Cells& s, const Point& p, double a) { return segment(p, polar(p, a, reach(s.get()))); }
//= f2c::types::Cell::createStraightLongLine(**) const
LineString cell_span(const Cell& s, const Point& p, double a) {
  double r = reach(s.get());
  return segment(polar(p, M_PI + a, r), polar(p, a, r));
}
//= f2c::types::Cells::createStraightLongLine(**) const
LineString cells_span(const Cells& s, const Point& p, double a) {
  double r = reach(s.get());
  return segment(polar(p, M_PI + a, r), polar(p, a, r));
}
//= f2c::types::Cell::createLineUntilBorder(**) const ;opaque=*MultiLineString::intersection
LineString until_border(const Cell& s, const Point& p, double a) {
  MultiLineString rays(s.createSemiLongLine(p, a));
  MultiLineString hits = rays.intersection(s);
  Point best = p;
  double least = std::numeric_limits<double>::max();
  for (size_t i = 0; i < hits.size(); ++i) {
    LineString l = hits.getGeometry(i);
    for (size_t j = 0; j < l.size(); ++j) {
      Point q = l.getGeometry(j);
      double d = q.get()->Distance(p.get());
      if (d > 1e-5 && d < least) { best = q; least = d; }
    }
  }
  if (best == p) return LineString();
  return segment(p, best);
}
inline Cell where(const Cells& s, const Point& p) {
  for (size_t i = 0; i < n_members(s.get()); ++i) {
    const OGRPolygon* c = poly_of(s.get(), i);
    if (p.get()->Touches(c) || p.get()->Within(c)) return raw_cell(c);
  }
  return Cell();
}
//= f2c::types::Cells::getCellWherePoint(**) const
Cell cell_where(const Cells& s, const Point& p) { return where(s, p); }
//= f2c::types::Cells::createLineUntilBorder(**) const ;opaque=*Cell::createLineUntilBorder
LineString cells_until_border(const Cells& s, const Point& p, double a) { return where(s, p).createLineUntilBorder(p, a); }
//= f2c::types::Cell::isConvex() const
bool convex(const Cell& s) {
  const OGRPolygon* g = s.get();
  if (g->getNumInteriorRings() > 0 || g->get_Area() <= 0) return false;
  size_t n = n_points(g->getExteriorRing());
  if (n < 2) return false;
  size_t m = n - 1;
  const OGRLinearRing* r = g->getExteriorRing();
  bool left = Point::getAngleFromPoints(raw_point(r, 0), raw_point(r, 1 % m), raw_point(r, 2 % m)) < M_PI;
  for (size_t i = 1; i < m; ++i)
    if ((Point::getAngleFromPoints(raw_point(r, i), raw_point(r, (i + 1) % m), raw_point(r, (i + 2) % m)) < M_PI) != left) return false;
  return true;
}
//= f2c::types::Cells::isConvex() const
bool cells_convex(const Cells& s) { return n_members(s.get()) == 1 && raw_cell(poly_of(s.get(), 0)).isConvex(); }
//= f2c::types::LinearRing::isClosed() const
bool closed(const LinearRing& s) { return s.get()->IsEmpty() || s.get()->get_IsClosed(); }
//= f2c::types::LinearRing::isClockwise() const
bool clockwise(const LinearRing& s) { return s.get()->isClockwise(); }
//= f2c::types::MultiLineString::getLineSegments(const f2c::types::LineString &)
MultiLineString segments(const LineString& s) {
  MultiLineString r;
  for (size_t i = 0; i + 1 < n_points(s.get()); ++i) { LineString l = segment(raw_point(s.get(), i), raw_point(s.get(), i + 1)); r.get()->addGeometry(l.get()); }
  return r;
}
//= f2c::types::MultiLineString::getLineSegments(const f2c::types::LinearRing &)
MultiLineString ring_segments(const LinearRing& s) {
  MultiLineString r;
  for (size_t i = 0; i + 1 < n_points(s.get()); ++i) { LineString l = segment(raw_point(s.get(), i), raw_point(s.get(), i + 1)); r.get()->addGeometry(l.get()); }
  return r;
}
}
