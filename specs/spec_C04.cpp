// Building, growing and replacing: exactly the requested elements, in order, nothing else changed.
#include "raw.h"
namespace spec {
// ---- lines
//= f2c::types::LineString::addPoint(double, double, double)
void line_add_xyz(LineString& s, double x, double y, double z) { s.get()->addPoint(x, y, z); }
//= f2c::types::LineString::addPoint(const f2c::types::Point &)
//= f2c::types::LineString::addGeometry(const f2c::types::Point &)
void line_add(LineString& s, const Point& p) { s.get()->addPoint(px(p), py(p), pz(p)); }
//= f2c::types::LineString::setGeometry(unsigned long, const f2c::types::Point &)
void line_set(LineString& s, size_t i, const Point& p) { assume(i < n_points(s.get())); s.get()->setPoint(i, px(p), py(p), pz(p)); }
//= f2c::types::LineString::LineString(const f2c::types::Point &, const f2c::types::Point &)
LineString line_pair(const Point& a, const Point& b) { LineString r; line_add(r, a); line_add(r, b); return r; }
//= f2c::types::LineString::LineString(const std::vector<**
LineString line_from_vector(const std::vector<Point>& v) { LineString r; for (size_t i = 0; i < v.size(); ++i) line_add(r, v[i]); return r; }
//= f2c::types::LineString::LineString(const std::initializer_list<**
LineString line_from_list(const std::initializer_list<Point>& v) { LineString r; for (const Point& p : v) line_add(r, p); return r; }
//= f2c::types::LineString::LineString(const f2c::types::LinearRing &)
LineString line_from_ring(const LinearRing& g) { LineString r; for (size_t i = 0; i < n_points(g.get()); ++i) line_add(r, raw_point(g.get(), i)); return r; }
//= f2c::types::LineString::reversePoints()
void line_reverse(LineString& s) {
  LineString r;
  size_t n = n_points(s.get());
  for (size_t i = 0; i < n; ++i) line_add(r, raw_point(s.get(), n - 1 - i));
  s = r;
}
// ---- rings
//= f2c::types::LinearRing::addPoint(double, double, double)
void ring_add_xyz(LinearRing& s, double x, double y, double z) { s.get()->addPoint(x, y, z); }
//= f2c::types::LinearRing::addPoint(const f2c::types::Point &)
//= f2c::types::LinearRing::addGeometry(const f2c::types::Point &)
void ring_add(LinearRing& s, const Point& p) { s.get()->addPoint(px(p), py(p), pz(p)); }
//= f2c::types::LinearRing::setGeometry(unsigned long, const f2c::types::Point &)
void ring_set(LinearRing& s, size_t i, const Point& p) { assume(i < n_points(s.get())); s.get()->setPoint(i, px(p), py(p), pz(p)); }
//= f2c::types::LinearRing::LinearRing(const std::vector<**
LinearRing ring_from_vector(const std::vector<Point>& v) { LinearRing r; for (size_t i = 0; i < v.size(); ++i) ring_add(r, v[i]); return r; }
//= f2c::types::LinearRing::LinearRing(const std::initializer_list<**
LinearRing ring_from_list(const std::initializer_list<Point>& v) { LinearRing r; for (const Point& p : v) ring_add(r, p); return r; }
//= f2c::types::LinearRing::reversePoints()
void ring_reverse(LinearRing& s) {
  LinearRing r;
  size_t n = n_points(s.get());
  for (size_t i = 0; i < n; ++i) ring_add(r, raw_point(s.get(), n - 1 - i));
  s = r;
}
// ---- point collections
//= f2c::types::MultiPoint::addPoint(double, double, double)
void points_add_xyz(MultiPoint& s, double x, double y, double z) { OGRPoint p(x, y, z); s.get()->addGeometry(&p); }
//= f2c::types::MultiPoint::addPoint(const f2c::types::Point &)
//= f2c::types::MultiPoint::addGeometry(const f2c::types::Point &)
void points_add(MultiPoint& s, const Point& p) { points_add_xyz(s, px(p), py(p), pz(p)); }
//= f2c::types::MultiPoint::addPoints(const f2c::types::MultiPoint &)
void points_add_all(MultiPoint& s, const MultiPoint& o) {
  for (size_t i = 0; i < n_members(o.get()); ++i) { const OGRPoint* p = point_of(o.get(), i); points_add_xyz(s, p->getX(), p->getY(), p->getZ()); }
}
//= f2c::types::MultiPoint::setGeometry(unsigned long, const f2c::types::Point &)
void points_set(MultiPoint& s, size_t i, const Point& p) {
  assume(i < n_members(s.get()));
  MultiPoint r;
  for (size_t j = 0; j < n_members(s.get()); ++j) {
    const OGRPoint* q = point_of(s.get(), j);
    if (j == i) points_add(r, p); else points_add_xyz(r, q->getX(), q->getY(), q->getZ());
  }
  s = r;
}
//= f2c::types::MultiPoint::MultiPoint(const std::vector<**
MultiPoint points_from_vector(const std::vector<Point>& v) { MultiPoint r; for (size_t i = 0; i < v.size(); ++i) points_add(r, v[i]); return r; }
//= f2c::types::MultiPoint::MultiPoint(const std::initializer_list<**
MultiPoint points_from_list(const std::initializer_list<Point>& v) { MultiPoint r; for (const Point& p : v) points_add(r, p); return r; }
// ---- line collections
inline void lines_add_raw(MultiLineString& s, const OGRLineString* l) { s.get()->addGeometry(l); }
//= f2c::types::MultiLineString::addGeometry(const f2c::types::LineString &)
void lines_add(MultiLineString& s, const LineString& l) { lines_add_raw(s, l.get()); }
//= f2c::types::MultiLineString::addGeometry(const f2c::types::MultiLineString &)
void lines_add_all(MultiLineString& s, const MultiLineString& o) {
  for (size_t i = 0; i < n_members(o.get()); ++i) lines_add_raw(s, line_of(o.get(), i));
}
//= f2c::types::MultiLineString::setGeometry(unsigned long, const f2c::types::LineString &)
void lines_set(MultiLineString& s, size_t i, const LineString& l) {
  if (i >= n_members(s.get())) {
    for (size_t j = n_members(s.get()); j < i; ++j) { LineString none; s.get()->addGeometry(none.get()); }
    s.get()->addGeometry(l.get());
    return;
  }
  MultiLineString r;
  for (size_t j = 0; j < n_members(s.get()); ++j) lines_add_raw(r, j == i ? l.get() : line_of(s.get(), j));
  s = r;
}
//= f2c::types::MultiLineString::MultiLineString(const f2c::types::LineString &)
MultiLineString lines_from_line(const LineString& l) { MultiLineString r; lines_add(r, l); return r; }
//= f2c::types::MultiLineString::MultiLineString(const std::initializer_list<**
MultiLineString lines_from_list(const std::initializer_list<LineString>& v) { MultiLineString r; for (const LineString& p : v) lines_add(r, p); return r; }
//= f2c::types::MultiLineString::append(const OGRGeometry *)
void lines_append_line(MultiLineString& s, const OGRGeometry* g) {
  assume(g != nullptr);
  auto t = wkbFlatten(g->getGeometryType());
  if (t == wkbLineString) {
    if (!g->IsEmpty()) s.get()->addGeometry(g);
  } else if (t == wkbMultiLineString) {
    for (auto&& l : *g->toMultiLineString()) s.get()->addGeometry(l);
  } else if (t == wkbPolygon) {
    for (auto&& r : *g->toPolygon()) s.get()->addGeometry(r);
  } else if (t == wkbMultiPolygon) {
    for (auto&& p : *g->toMultiPolygon()) for (auto&& r : *p) s.get()->addGeometry(r);
  }
}
// the consecutive pairs of points, in order
//= f2c::types::MultiLineString::getLineSegments(const f2c::types::LineString &)
MultiLineString segments(const LineString& l) {
  MultiLineString r;
  for (size_t i = 0; i + 1 < n_points(l.get()); ++i) lines_add(r, line_pair(raw_point(l.get(), i), raw_point(l.get(), i + 1)));
  return r;
}
//= f2c::types::MultiLineString::getLineSegments(const f2c::types::LinearRing &)
MultiLineString ring_segments(const LinearRing& l) { return segments(line_from_ring(l)); }
// ---- polygons
inline LinearRing closed(const OGRLinearRing* s) {
  LinearRing r = raw_ring(s);
  if (!r.get()->IsEmpty() && !r.get()->get_IsClosed()) r.get()->addPoint(s->getX(0), s->getY(0), s->getZ(0));
  return r;
}
//= f2c::types::Cell::addRing(const f2c::types::LinearRing &)
//= f2c::types::Cell::addGeometry(const f2c::types::LinearRing &)
void cell_add(Cell& s, const LinearRing& g) { LinearRing r = closed(g.get()); s.get()->addRing(r.get()); }
//= f2c::types::Cell::Cell(const f2c::types::LinearRing &)
Cell cell_from_ring(const LinearRing& g) { Cell r; cell_add(r, g); return r; }
//= f2c::types::Cell::setGeometry(unsigned long, const f2c::types::LinearRing &)
void cell_set(Cell& s, size_t i, const LinearRing& g) {
  if (i >= n_rings(s.get())) {
    for (size_t j = n_rings(s.get()); j < i; ++j) cell_add(s, LinearRing());
    cell_add(s, g);
    return;
  }
  Cell r;
  for (size_t j = 0; j < n_rings(s.get()); ++j) { if (j == i) cell_add(r, g); else cell_add(r, raw_ring(ring_of(s.get(), j))); }
  s = r;
}
// ---- polygon collections
//= f2c::types::Cells::addGeometry(const f2c::types::Cell &)
void cells_add(Cells& s, const Cell& c) { s.get()->addGeometry(c.get()); }
//= f2c::types::Cells::Cells(const f2c::types::Cell &)
Cells cells_from_cell(const Cell& c) { Cells r; cells_add(r, c); return r; }
//= f2c::types::Cells::setGeometry(unsigned long, const f2c::types::Cell &)
void cells_set(Cells& s, size_t i, const Cell& c) {
  if (i >= n_members(s.get())) {
    for (size_t j = n_members(s.get()); j < i; ++j) { Cell none; s.get()->addGeometry(none.get()); }
    s.get()->addGeometry(c.get());
    return;
  }
  Cells r;
  for (size_t j = 0; j < n_members(s.get()); ++j) r.get()->addGeometry(j == i ? c.get() : poly_of(s.get(), j));
  s = r;
}
//= f2c::types::Cells::addRing(unsigned long, const f2c::types::LinearRing &)
void cells_add_ring(Cells& s, size_t i, const LinearRing& g) {
  assume(i < n_members(s.get()));
  LinearRing r = closed(g.get());
  static_cast<OGRPolygon*>(s.get()->getGeometryRef(i))->addRing(r.get());
}
}
