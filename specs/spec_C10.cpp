// A swath: its attributes, its direction, and what it covers.
#include "swath.h"
#include <cmath>
namespace spec {
SwathView lhs_make(const LineString& p, double w, int id, SwathType t) { return view(Swath(p, w, id, t)); }
//= spec::lhs_make
SwathView make(const LineString& p, double w, int id, SwathType t) { positive(w); return {id, p, w, true, t}; }
SwathView lhs_make_path(const LineString& p) { return view(Swath(p)); }
//= spec::lhs_make_path
SwathView make_path(const LineString& p) { return {0, p, 0.0, true, SwathType::MAINLAND}; }
SwathView lhs_make_width(double w) { return view(Swath(w)); }
//= spec::lhs_make_width
SwathView make_width(double w) { positive(w); return {0, LineString(), w, true, SwathType::MAINLAND}; }
SwathView lhs_id(Swath& s, int v) { s.setId(v); return view(s); }
//= spec::lhs_id
SwathView set_id(Swath& s, int v) { SwathView w = view(s); w.id = v; return w; }
SwathView lhs_path(Swath& s, const LineString& v) { s.setPath(v); return view(s); }
//= spec::lhs_path
SwathView set_path(Swath& s, const LineString& v) { SwathView w = view(s); w.path = v; return w; }
SwathView lhs_width(Swath& s, double v) { s.setWidth(v); return view(s); }
//= spec::lhs_width
SwathView set_width(Swath& s, double v) { positive(v); SwathView w = view(s); w.width = v; return w; }
SwathView lhs_dir(Swath& s, bool v) { s.setCreationDir(v); return view(s); }
//= spec::lhs_dir
SwathView set_dir(Swath& s, bool v) { SwathView w = view(s); w.dir = v; return w; }
SwathView lhs_type(Swath& s, SwathType v) { s.setType(v); return view(s); }
//= spec::lhs_type
SwathView set_type(Swath& s, SwathType v) { SwathView w = view(s); w.type = v; return w; }
SwathView lhs_copy(const Swath& s) { Swath t(s); return view(t); }
//= spec::lhs_copy
SwathView copy(const Swath& s) { return view(s); }
SwathView lhs_assign(Swath& t, const Swath& s) { t = s; return view(t); }
//= spec::lhs_assign
SwathView assign(Swath& t, const Swath& s) { return view(s); }
SwathView lhs_reverse(Swath& s) { s.reverse(); return view(s); }
//= spec::lhs_reverse
SwathView reverse(Swath& s) { return turned(view(s)); }
SwathView lhs_move(Swath& s, const Point& d) { s.moveTo(d); return view(s); }
//= spec::lhs_move
SwathView move(Swath& s, const Point& d) { SwathView w = view(s); w.path = shifted(w.path, d); return w; }
SwathView lhs_same_dir(Swath& s, const Swath& o) { s.targetSameDirAs(o); return view(s); }
//= spec::lhs_same_dir
SwathView same_dir(Swath& s, const Swath& o) { SwathView w = view(s); if (s.getCreationDir() != o.getCreationDir()) w = turned(w); return w; }
SwathView lhs_opposite(Swath& s, const Swath& o) { s.targetOppositeDirAs(o); return view(s); }
//= spec::lhs_opposite
SwathView opposite(Swath& s, const Swath& o) { SwathView w = view(s); if (s.getCreationDir() == o.getCreationDir()) w = turned(w); return w; }
//= f2c::types::Swath::hasSameDir(**) const
bool has_same_dir(const Swath& s, const Swath& o) { return s.getCreationDir() == o.getCreationDir(); }
//= f2c::types::Swath::length() const
double length(const Swath& s) { return s.getPath().get()->get_Length(); }
//= f2c::types::Swath::numPoints() const
size_t num_points(const Swath& s) { return s.getPath().get()->getNumPoints(); }
//= f2c::types::Swath::getPoint(int) const
Point get_point(const Swath& s, int i) { LineString p = s.getPath(); in_range(i, n_points(p.get())); return raw_point(p.get(), i); }
//= f2c::types::Swath::getPoint(int)
Point get_point_m(Swath& s, int i) { LineString p = s.getPath(); in_range(i, n_points(p.get())); return raw_point(p.get(), i); }
//= f2c::types::Swath::startPoint() const
Point start(const Swath& s) { LineString p = s.getPath(); return p.get()->IsEmpty() ? Point() : raw_point(p.get(), 0); }
//= f2c::types::Swath::endPoint() const
Point end(const Swath& s) { LineString p = s.getPath(); return p.get()->IsEmpty() ? Point() : raw_point(p.get(), n_points(p.get()) - 1); }
inline double heading(const Point& a, const Point& b) { return Point::mod_2pi(std::atan2(py(b) - py(a), px(b) - px(a))); }
//= f2c::types::Swath::getInAngle() const
double in_angle(const Swath& s) {
  LineString p = s.getPath();
  if (p.get()->IsEmpty()) return -1.0;
  in_range(1, n_points(p.get()));
  return heading(raw_point(p.get(), 0), raw_point(p.get(), 1));
}
//= f2c::types::Swath::getOutAngle() const
double out_angle(const Swath& s) {
  LineString p = s.getPath();
  if (p.get()->IsEmpty()) return -1.0;
  size_t n = n_points(p.get());
  in_range(1, n);
  return heading(raw_point(p.get(), n - 2), raw_point(p.get(), n - 1));
}
inline Cells strip(const Swath& s) {
  if (s.getPath().get()->IsEmpty()) return Cells();
  return Cells::buffer(s.getPath(), 0.5 * s.getWidth());
}
//= f2c::types::Swath::areaCovered() const
Cells covered(const Swath& s) { return strip(s); }
//= f2c::types::Swath::areaCovered(const f2c::types::Cells &) const ;opaque=*Cells::intersection|*Cells::buffer
Cells covered_in(const Swath& s, const Cells& c) { return c.intersection(strip(s)); }
//= f2c::types::Swath::area() const ;opaque=*Cells::buffer
double area(const Swath& s) { return strip(s).area(); }
//= f2c::types::Swath::area(const f2c::types::Cells &) const ;opaque=*Cells::intersection|*Cells::buffer
double area_in(const Swath& s, const Cells& c) { return c.intersection(strip(s)).area(); }
inline bool differ(const Swath& a, const Swath& b) {
  if (a.getWidth() != b.getWidth()) return true;
  Point p = a.startPoint(), q = a.getCreationDir() == b.getCreationDir() ? b.startPoint() : b.endPoint();
  return px(p) != px(q) || py(p) != py(q) || a.length() != b.length();
}
//= f2c::types::Swath::operator!=(**) const
bool ne(const Swath& a, const Swath& b) { return differ(a, b); }
//= f2c::types::Swath::operator==(**) const
bool eq(const Swath& a, const Swath& b) { return !differ(b, a); }
//= f2c::types::Swath::operator<(**) const
bool lt(const Swath& a, const Swath& b) { return a.getId() < b.getId(); }
//= f2c::types::Swath::operator>(**) const
bool gt(const Swath& a, const Swath& b) { return a.getId() > b.getId(); }
//= f2c::types::Swath::operator<=(**) const
bool le(const Swath& a, const Swath& b) { return a.getId() < b.getId() || (a.getId() == b.getId() && !differ(b, a)); }
//= f2c::types::Swath::operator>=(**) const
bool ge(const Swath& a, const Swath& b) { return a.getId() > b.getId() || (a.getId() == b.getId() && !differ(b, a)); }
}
