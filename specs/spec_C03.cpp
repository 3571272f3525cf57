// Reading one element of a container: exactly the element asked for, or out_of_range.
#include "spec.h"
namespace spec {
inline void in_range(size_t i, size_t n) { if (i >= n) throw std::out_of_range(""); }

inline size_t n_points(const OGRLineString* s) { return s->IsEmpty() ? 0 : s->getNumPoints(); }
inline Point raw_point(const OGRLineString* s, size_t i) { return Point(s->getX(i), s->getY(i), s->getZ(i)); }
inline LineString raw_line(const OGRLineString* s) {
  LineString r;
  for (size_t i = 0; i < n_points(s); ++i) r.get()->addPoint(s->getX(i), s->getY(i), s->getZ(i));
  return r;
}

//= f2c::types::LineString::size() const
size_t line_size(const LineString& s) { return n_points(s.get()); }
//= f2c::types::LineString::getGeometry(unsigned long) const
//= f2c::types::LineString::getGeometry(unsigned long)
Point line_get(const LineString& s, size_t i) { in_range(i, line_size(s)); return raw_point(s.get(), i); }
//= f2c::types::LineString::getGeometry(unsigned long, f2c::types::Point &) const ;compare=arg1
//= f2c::types::LineString::getGeometry(unsigned long, f2c::types::Point &) ;compare=arg1
void line_get_into(const LineString& s, size_t i, Point& p) { in_range(i, line_size(s)); p = raw_point(s.get(), i); }
//= f2c::types::LineString::X(unsigned long) const
//= f2c::types::LineString::getX(unsigned long) const
double line_x(const LineString& s, size_t i) { assume(i < line_size(s)); return s.get()->getX(i); }
//= f2c::types::LineString::Y(unsigned long) const
//= f2c::types::LineString::getY(unsigned long) const
double line_y(const LineString& s, size_t i) { assume(i < line_size(s)); return s.get()->getY(i); }
//= f2c::types::LineString::Z(unsigned long) const
//= f2c::types::LineString::getZ(unsigned long) const
double line_z(const LineString& s, size_t i) { assume(i < line_size(s)); return s.get()->getZ(i); }
//= f2c::types::LineString::startPoint() const
Point line_first(const LineString& s) { return line_get(s, 0); }
//= f2c::types::LineString::endPoint() const
Point line_last(const LineString& s) { in_range(0, line_size(s)); return raw_point(s.get(), line_size(s) - 1); }
//= f2c::types::Geometries<f2c::types::LineString,**>::at(int) const
//= f2c::types::Geometries<f2c::types::LineString,**>::operator[](int) const
Point line_at(const Geometries<LineString, OGRLineString, wkbLineString, Point>& s, int i) { return line_get(static_cast<const LineString&>(s), i); }
//= f2c::types::Geometries<f2c::types::LineString,**>::back() const
Point line_back(const Geometries<LineString, OGRLineString, wkbLineString, Point>& s) { return line_last(static_cast<const LineString&>(s)); }

//= f2c::types::LinearRing::size() const
size_t ring_size(const LinearRing& s) { return n_points(s.get()); }
//= f2c::types::LinearRing::getGeometry(unsigned long) const
//= f2c::types::LinearRing::getGeometry(unsigned long)
Point ring_get(const LinearRing& s, size_t i) { in_range(i, ring_size(s)); return raw_point(s.get(), i); }
//= f2c::types::LinearRing::getGeometry(unsigned long, f2c::types::Point &) const ;compare=arg1
//= f2c::types::LinearRing::getGeometry(unsigned long, f2c::types::Point &) ;compare=arg1
void ring_get_into(const LinearRing& s, size_t i, Point& p) { in_range(i, ring_size(s)); p = raw_point(s.get(), i); }
//= f2c::types::LinearRing::getX(unsigned long) const
double ring_x(const LinearRing& s, size_t i) { assume(i < ring_size(s)); return s.get()->getX(i); }
//= f2c::types::LinearRing::getY(unsigned long) const
double ring_y(const LinearRing& s, size_t i) { assume(i < ring_size(s)); return s.get()->getY(i); }
//= f2c::types::LinearRing::getZ(unsigned long) const
double ring_z(const LinearRing& s, size_t i) { assume(i < ring_size(s)); return s.get()->getZ(i); }
//= f2c::types::LinearRing::startPoint() const
Point ring_first(const LinearRing& s) { return ring_get(s, 0); }
//= f2c::types::LinearRing::endPoint() const
Point ring_last(const LinearRing& s) { in_range(0, ring_size(s)); return raw_point(s.get(), ring_size(s) - 1); }
//= f2c::types::Geometries<f2c::types::LinearRing,**>::at(int) const
//= f2c::types::Geometries<f2c::types::LinearRing,**>::operator[](int) const
Point ring_at(const Geometries<LinearRing, OGRLinearRing, wkbLinearRing, Point>& s, int i) { return ring_get(static_cast<const LinearRing&>(s), i); }
//= f2c::types::Geometries<f2c::types::LinearRing,**>::back() const
Point ring_back(const Geometries<LinearRing, OGRLinearRing, wkbLinearRing, Point>& s) { return ring_last(static_cast<const LinearRing&>(s)); }

//= f2c::types::MultiPoint::size() const
size_t points_size(const MultiPoint& s) { return s.get()->IsEmpty() ? 0 : s.get()->getNumGeometries(); }
inline Point raw_member(const MultiPoint& s, size_t i) {
  const OGRPoint* p = static_cast<const OGRPoint*>(s.get()->getGeometryRef(i));
  return Point(p->getX(), p->getY(), p->getZ());
}
//= f2c::types::MultiPoint::getGeometry(unsigned long) const
//= f2c::types::MultiPoint::getGeometry(unsigned long)
Point points_get(const MultiPoint& s, size_t i) { in_range(i, points_size(s)); return raw_member(s, i); }
//= f2c::types::MultiPoint::getGeometry(unsigned long, f2c::types::Point &) const ;compare=arg1
//= f2c::types::MultiPoint::getGeometry(unsigned long, f2c::types::Point &) ;compare=arg1
void points_get_into(const MultiPoint& s, size_t i, Point& p) { in_range(i, points_size(s)); p = raw_member(s, i); }
//= f2c::types::MultiPoint::getFirstPoint() const
Point points_first(const MultiPoint& s) { return points_get(s, 0); }
//= f2c::types::MultiPoint::getLastPoint() const
Point points_last(const MultiPoint& s) { in_range(0, points_size(s)); return raw_member(s, points_size(s) - 1); }
//= f2c::types::Geometries<f2c::types::MultiPoint,**>::at(int) const
//= f2c::types::Geometries<f2c::types::MultiPoint,**>::operator[](int) const
Point points_at(const Geometries<MultiPoint, OGRMultiPoint, wkbMultiPoint, Point>& s, int i) { return points_get(static_cast<const MultiPoint&>(s), i); }
//= f2c::types::Geometries<f2c::types::MultiPoint,**>::back() const
Point points_back(const Geometries<MultiPoint, OGRMultiPoint, wkbMultiPoint, Point>& s) { return points_last(static_cast<const MultiPoint&>(s)); }

//= f2c::types::MultiLineString::size() const
size_t lines_size(const MultiLineString& s) { return s.get()->IsEmpty() ? 0 : s.get()->getNumGeometries(); }
inline LineString raw_member(const MultiLineString& s, size_t i) { return raw_line(static_cast<const OGRLineString*>(s.get()->getGeometryRef(i))); }
//= f2c::types::MultiLineString::getGeometry(unsigned long) const
//= f2c::types::MultiLineString::getGeometry(unsigned long)
LineString lines_get(const MultiLineString& s, size_t i) { in_range(i, lines_size(s)); return raw_member(s, i); }
//= f2c::types::MultiLineString::getGeometry(unsigned long, f2c::types::LineString &) const ;compare=arg1
//= f2c::types::MultiLineString::getGeometry(unsigned long, f2c::types::LineString &) ;compare=arg1
void lines_get_into(const MultiLineString& s, size_t i, LineString& p) { in_range(i, lines_size(s)); p = raw_member(s, i); }
//= f2c::types::Geometries<f2c::types::MultiLineString,**>::at(int) const
//= f2c::types::Geometries<f2c::types::MultiLineString,**>::operator[](int) const
LineString lines_at(const Geometries<MultiLineString, OGRMultiLineString, wkbMultiLineString, LineString>& s, int i) { return lines_get(static_cast<const MultiLineString&>(s), i); }
//= f2c::types::Geometries<f2c::types::MultiLineString,**>::back() const
LineString lines_back(const Geometries<MultiLineString, OGRMultiLineString, wkbMultiLineString, LineString>& s) {
  const MultiLineString& m = static_cast<const MultiLineString&>(s);
  in_range(0, lines_size(m));
  return raw_member(m, lines_size(m) - 1);
}

inline LinearRing raw_ring(const OGRLinearRing* s) {
  LinearRing r;
  for (size_t i = 0; i < n_points(s); ++i) r.get()->addPoint(s->getX(i), s->getY(i), s->getZ(i));
  return r;
}
//= f2c::types::Cell::size() const
size_t cell_size(const Cell& s) { return s.get()->IsEmpty() ? 0 : 1 + s.get()->getNumInteriorRings(); }
// the outer border comes first, then the holes in order
inline LinearRing raw_member(const Cell& s, size_t i) { return raw_ring(i == 0 ? s.get()->getExteriorRing() : s.get()->getInteriorRing(i - 1)); }
//= f2c::types::Cell::getGeometry(unsigned long) const
//= f2c::types::Cell::getGeometry(unsigned long)
LinearRing cell_get(const Cell& s, size_t i) { in_range(i, cell_size(s)); return raw_member(s, i); }
//= f2c::types::Cell::getGeometry(unsigned long, f2c::types::LinearRing &) const ;compare=arg1
//= f2c::types::Cell::getGeometry(unsigned long, f2c::types::LinearRing &) ;compare=arg1
void cell_get_into(const Cell& s, size_t i, LinearRing& p) { in_range(i, cell_size(s)); p = raw_member(s, i); }
//= f2c::types::Cell::getExteriorRing() const
LinearRing cell_exterior(const Cell& s) { assume(cell_size(s) > 0); return raw_member(s, 0); }
//= f2c::types::Cell::getInteriorRing(unsigned long) const
LinearRing cell_interior(const Cell& s, size_t i) { assume(i + 1 < cell_size(s)); return raw_member(s, i + 1); }
//= f2c::types::Geometries<f2c::types::Cell,**>::at(int) const
//= f2c::types::Geometries<f2c::types::Cell,**>::operator[](int) const
LinearRing cell_at(const Geometries<Cell, OGRPolygon, wkbPolygon, LinearRing>& s, int i) { return cell_get(static_cast<const Cell&>(s), i); }
//= f2c::types::Geometries<f2c::types::Cell,**>::back() const
LinearRing cell_back(const Geometries<Cell, OGRPolygon, wkbPolygon, LinearRing>& s) {
  const Cell& m = static_cast<const Cell&>(s);
  in_range(0, cell_size(m));
  return raw_member(m, cell_size(m) - 1);
}

inline Cell raw_cell(const OGRPolygon* p) {
  Cell r;
  for (size_t i = 0; i < (p->IsEmpty() ? 0 : 1 + p->getNumInteriorRings()); ++i) {
    LinearRing g = raw_ring(i == 0 ? p->getExteriorRing() : p->getInteriorRing(i - 1));
    r.get()->addRing(g.get());
  }
  return r;
}
//= f2c::types::Cells::size() const
size_t cells_size(const Cells& s) { return s.get()->IsEmpty() ? 0 : s.get()->getNumGeometries(); }
inline const OGRPolygon* raw_poly(const Cells& s, size_t i) { return static_cast<const OGRPolygon*>(s.get()->getGeometryRef(i)); }
//= f2c::types::Cells::getGeometry(unsigned long) const
//= f2c::types::Cells::getGeometry(unsigned long)
//= f2c::types::Cells::getCell(unsigned long) const
Cell cells_get(const Cells& s, size_t i) { in_range(i, cells_size(s)); return raw_cell(raw_poly(s, i)); }
//= f2c::types::Cells::getGeometry(unsigned long, f2c::types::Cell &) const ;compare=arg1
//= f2c::types::Cells::getGeometry(unsigned long, f2c::types::Cell &) ;compare=arg1
void cells_get_into(const Cells& s, size_t i, Cell& p) { in_range(i, cells_size(s)); p = raw_cell(raw_poly(s, i)); }
//= f2c::types::Cells::getCellBorder(unsigned long) const
LinearRing cells_border(const Cells& s, size_t i) { assume(i < cells_size(s)); return raw_ring(raw_poly(s, i)->getExteriorRing()); }
//= f2c::types::Cells::getInteriorRing(unsigned long, unsigned long) const
LinearRing cells_interior(const Cells& s, size_t i, size_t j) {
  assume(i < cells_size(s) && j < size_t(raw_poly(s, i)->getNumInteriorRings()));
  return raw_ring(raw_poly(s, i)->getInteriorRing(j));
}
//= f2c::types::Geometries<f2c::types::Cells,**>::at(int) const
//= f2c::types::Geometries<f2c::types::Cells,**>::operator[](int) const
Cell cells_at(const Geometries<Cells, OGRMultiPolygon, wkbMultiPolygon, Cell>& s, int i) { return cells_get(static_cast<const Cells&>(s), i); }
//= f2c::types::Geometries<f2c::types::Cells,**>::back() const
Cell cells_back(const Geometries<Cells, OGRMultiPolygon, wkbMultiPolygon, Cell>& s) {
  const Cells& m = static_cast<const Cells&>(s);
  in_range(0, cells_size(m));
  return raw_cell(raw_poly(m, cells_size(m) - 1));
}
}
