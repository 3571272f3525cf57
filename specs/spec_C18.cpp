// Component-wise arithmetic of points and of the geometries built from them.
#include "spec.h"
namespace spec {
//= f2c::types::Point::Point(double, double, double)
Point point_make(double x, double y, double z) { OGRPoint o(x, y, z); return Point(o); }
//= f2c::types::Point::operator+(const f2c::types::Point &) const
Point point_add(const Point& p, const Point& q) { return Point(px(p) + px(q), py(p) + py(q), pz(p) + pz(q)); }
//= f2c::types::Point::operator-(const f2c::types::Point &) const
Point point_sub(const Point& p, const Point& q) { return Point(px(p) - px(q), py(p) - py(q), pz(p) - pz(q)); }
//= f2c::types::Point::operator*(double) const
Point point_scale(const Point& p, double b) { return Point(px(p) * b, py(p) * b, pz(p) * b); }
//= f2c::types::Point::operator*=(double)
void point_scale_in_place(Point& p, double b) { p = Point(px(p) * b, py(p) * b, pz(p) * b); }
//= f2c::types::Point::operator/(double) const
Point point_divide(const Point& p, double b) { return Point(px(p) / b, py(p) / b, pz(p) / b); }
//= f2c::types::Point::operator*(const f2c::types::Point &) const
double point_dot(const Point& p, const Point& q) { return px(p) * px(q) + py(p) * py(q) + pz(p) * pz(q); }
//= f2c::types::Point::det(const f2c::types::Point &, const f2c::types::Point &)
double point_det(const Point& p, const Point& q) { return px(p) * py(q) - py(p) * px(q); }
//= f2c::types::Point::X() const
//= f2c::types::Point::getX() const
double point_x(const Point& p) { return px(p); }
//= f2c::types::Point::Y() const
//= f2c::types::Point::getY() const
double point_y(const Point& p) { return py(p); }
//= f2c::types::Point::Z() const
//= f2c::types::Point::getZ() const
double point_z(const Point& p) { return pz(p); }
//= f2c::types::Point::setX(double)
void point_set_x(Point& p, double v) { p = Point(v, py(p), pz(p)); }
//= f2c::types::Point::setY(double)
void point_set_y(Point& p, double v) { p = Point(px(p), v, pz(p)); }
//= f2c::types::Point::setZ(double)
void point_set_z(Point& p, double v) { p = Point(px(p), py(p), v); }
//= f2c::types::Point::setPoint(double, double, double)
void point_set_xyz(Point& p, double x, double y, double z) { p.get()->setX(x); p.get()->setY(y); p.get()->setZ(z); }
//= f2c::types::Point::setPoint(const OGRPoint &)
void point_set_ogr(Point& p, const OGRPoint& o) { p.get()->setX(o.getX()); p.get()->setY(o.getY()); p.get()->setZ(o.getZ()); }
//= f2c::types::Point::setPoint(const f2c::types::Point &)
//= f2c::types::Point::operator=(const f2c::types::Point &)
//= f2c::types::Point::operator=(f2c::types::Point &&)
void point_set_point(Point& p, const Point& o) { p.get()->setX(px(o)); p.get()->setY(py(o)); p.get()->setZ(pz(o)); }
//= f2c::types::operator+(const OGRPoint &, const f2c::types::Point &)
OGRPoint ogr_add(const OGRPoint& a, const Point& b) { return OGRPoint(a.getX() + px(b), a.getY() + py(b), a.getZ() + pz(b)); }
//= f2c::types::operator-(const OGRPoint &, const f2c::types::Point &)
OGRPoint ogr_sub(const OGRPoint& a, const Point& b) { return OGRPoint(a.getX() - px(b), a.getY() - py(b), a.getZ() - pz(b)); }

// rotation by an angle around the receiver, in the plane
//= spec::rotate_of
Point rotate_plane(const Point& c, double a, const Point& p) {
  double dx = px(p) - px(c), dy = py(p) - py(c);
  return Point(px(c) + cos(a) * dx - sin(a) * dy, py(c) + sin(a) * dx + cos(a) * dy);
}
Point rotate_of(const Point& c, double a, const Point& p) { Point r = c.rotateFromPoint(a, p); return Point(px(r), py(r)); }
//= spec::polar_of
Point polar_plane(const Point& c, double a, double d) { return Point(px(c) + d * cos(a), py(c) + d * sin(a)); }
Point polar_of(const Point& c, double a, double d) { Point r = c.getPointFromAngle(a, d); return Point(px(r), py(r)); }

// every element of a vector, in order
//= f2c::types::operator+<f2c::types::Point>(const std::vector<**
std::vector<Point> vec_add(const std::vector<Point>& v, const Point& d) {
  std::vector<Point> r;
  for (size_t i = 0; i < v.size(); ++i) r.push_back(point_add(v[i], d));
  return r;
}
//= f2c::types::operator-<f2c::types::Point>(const std::vector<**
std::vector<Point> vec_sub(const std::vector<Point>& v, const Point& d) {
  std::vector<Point> r;
  for (size_t i = 0; i < v.size(); ++i) r.push_back(point_sub(v[i], d));
  return r;
}
//= f2c::types::operator-<f2c::types::Point>(const f2c::types::Point &, const std::vector<**
std::vector<Point> vec_rsub(const Point& d, const std::vector<Point>& v) {
  std::vector<Point> r;
  for (size_t i = 0; i < v.size(); ++i) r.push_back(point_sub(d, v[i]));
  return r;
}
//= f2c::types::Point::rotateFromPoint<f2c::types::Point>(double, const std::vector<**
std::vector<Point> vec_rotate(const Point& c, double a, const std::vector<Point>& v) {
  std::vector<Point> r;
  for (size_t i = 0; i < v.size(); ++i) r.push_back(c.rotateFromPoint(a, v[i]));
  return r;
}
// every member of a geometry, in order
//= f2c::types::operator+<f2c::types::LineString>(const f2c::types::LineString &, const f2c::types::Point &)
LineString line_add(const LineString& t, const Point& d) { LineString r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_add(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::LineString>(const f2c::types::LineString &, const f2c::types::Point &)
LineString line_sub(const LineString& t, const Point& d) { LineString r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_sub(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::LineString>(const f2c::types::Point &, const f2c::types::LineString &)
LineString line_rsub(const Point& d, const LineString& t) { LineString r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_sub(d, t.getGeometry(i))); return r; }
//= f2c::types::Point::rotateFromPoint<f2c::types::LineString>(**
LineString line_rot(const Point& c, double a, const LineString& t) { LineString r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(c.rotateFromPoint(a, t.getGeometry(i))); return r; }
//= f2c::types::operator+<f2c::types::LinearRing>(const f2c::types::LinearRing &, const f2c::types::Point &)
LinearRing ring_add(const LinearRing& t, const Point& d) { LinearRing r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_add(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::LinearRing>(const f2c::types::LinearRing &, const f2c::types::Point &)
LinearRing ring_sub(const LinearRing& t, const Point& d) { LinearRing r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_sub(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::LinearRing>(const f2c::types::Point &, const f2c::types::LinearRing &)
LinearRing ring_rsub(const Point& d, const LinearRing& t) { LinearRing r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_sub(d, t.getGeometry(i))); return r; }
//= f2c::types::Point::rotateFromPoint<f2c::types::LinearRing>(**
LinearRing ring_rot(const Point& c, double a, const LinearRing& t) { LinearRing r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(c.rotateFromPoint(a, t.getGeometry(i))); return r; }
//= f2c::types::operator+<f2c::types::MultiPoint>(const f2c::types::MultiPoint &, const f2c::types::Point &)
MultiPoint mp_add(const MultiPoint& t, const Point& d) { MultiPoint r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_add(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::MultiPoint>(const f2c::types::MultiPoint &, const f2c::types::Point &)
MultiPoint mp_sub(const MultiPoint& t, const Point& d) { MultiPoint r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_sub(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::MultiPoint>(const f2c::types::Point &, const f2c::types::MultiPoint &)
MultiPoint mp_rsub(const Point& d, const MultiPoint& t) { MultiPoint r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(point_sub(d, t.getGeometry(i))); return r; }
//= f2c::types::Point::rotateFromPoint<f2c::types::MultiPoint>(**
MultiPoint mp_rot(const Point& c, double a, const MultiPoint& t) { MultiPoint r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(c.rotateFromPoint(a, t.getGeometry(i))); return r; }
//= f2c::types::operator+<f2c::types::MultiLineString>(const f2c::types::MultiLineString &, const f2c::types::Point &)
MultiLineString mls_add(const MultiLineString& t, const Point& d) { MultiLineString r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(line_add(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::MultiLineString>(const f2c::types::MultiLineString &, const f2c::types::Point &)
MultiLineString mls_sub(const MultiLineString& t, const Point& d) { MultiLineString r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(line_sub(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::MultiLineString>(const f2c::types::Point &, const f2c::types::MultiLineString &)
MultiLineString mls_rsub(const Point& d, const MultiLineString& t) { MultiLineString r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(line_rsub(d, t.getGeometry(i))); return r; }
//= f2c::types::Point::rotateFromPoint<f2c::types::MultiLineString>(**
MultiLineString mls_rot(const Point& c, double a, const MultiLineString& t) { MultiLineString r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(line_rot(c, a, t.getGeometry(i))); return r; }
//= f2c::types::operator+<f2c::types::Cell>(const f2c::types::Cell &, const f2c::types::Point &)
Cell cell_add(const Cell& t, const Point& d) { Cell r; for (size_t i = 0; i < t.size(); ++i) r.addRing(ring_add(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::Cell>(const f2c::types::Cell &, const f2c::types::Point &)
Cell cell_sub(const Cell& t, const Point& d) { Cell r; for (size_t i = 0; i < t.size(); ++i) r.addRing(ring_sub(t.getGeometry(i), d)); return r; }
//= f2c::types::Point::rotateFromPoint<f2c::types::Cell>(**
Cell cell_rot(const Point& c, double a, const Cell& t) { Cell r; for (size_t i = 0; i < t.size(); ++i) r.addRing(ring_rot(c, a, t.getGeometry(i))); return r; }
//= f2c::types::operator+<f2c::types::Cells>(const f2c::types::Cells &, const f2c::types::Point &)
Cells cells_add(const Cells& t, const Point& d) { Cells r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(cell_add(t.getGeometry(i), d)); return r; }
//= f2c::types::operator-<f2c::types::Cells>(const f2c::types::Cells &, const f2c::types::Point &)
Cells cells_sub(const Cells& t, const Point& d) { Cells r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(cell_sub(t.getGeometry(i), d)); return r; }
//= f2c::types::Point::rotateFromPoint<f2c::types::Cells>(**
Cells cells_rot(const Point& c, double a, const Cells& t) { Cells r; for (size_t i = 0; i < t.size(); ++i) r.addGeometry(cell_rot(c, a, t.getGeometry(i))); return r; }
}
