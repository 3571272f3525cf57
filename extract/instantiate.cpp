// Uses the header templates of the library that no .cpp of it uses, so that their
// bodies are instantiated and analysed too.  Nothing in this file is ever executed.
#include "fields2cover.h"
namespace f2c_inst {
using namespace f2c::types;
template <class S> void geoms(S &s, const S &c, const Point &p) {
  for (auto &&x : s) (void)x;
  for (const auto &x : c) (void)x;
  (void)c[0]; (void)c.at(0); (void)c.back(); (void)c.clone(); (void)c.simplify(1.0);
  (void)s.begin(&c); (void)s.end(&c);
}
template <class S> void areas(const S &c) { (void)c.area(); }
template <class S> void pts(const S &c, const Point &p) {
  (void)(c + p); (void)(c - p); (void)(p - c);
  (void)p.rotateFromPoint(1.0, c);
}
template <class A, class B> void rel(const A &a, const B &b) {
  (void)a.distance(b); (void)a.disjoint(b); (void)a.crosses(b); (void)a.touches(b);
  (void)a.within(b); (void)a.intersects(b);
}
inline void all(Point &p, LineString &ls, LinearRing &lr, MultiPoint &mp, MultiLineString &ml,
                Cell &c, Cells &cs, const OGRPoint &op) {
  geoms(ls, ls, p); geoms(lr, lr, p); geoms(mp, mp, p); geoms(ml, ml, p); geoms(c, c, p); geoms(cs, cs, p);
  areas(ls); areas(lr); areas(c); areas(cs);
  pts(ls, p); pts(lr, p); pts(mp, p); pts(ml, p);
  (void)p.rotateFromPoint(1.0, c); (void)p.rotateFromPoint(1.0, cs);
  (void)p.rotateFromPoint(1.0, std::vector<Point>{});
  (void)(std::vector<Point>{} + p); (void)(std::vector<Point>{} - p); (void)(p - std::vector<Point>{});
  (void)(op + p); (void)(op - p);
  rel(p, cs); rel(p, c); rel(ls, c); rel(c, cs); rel(cs, cs); rel(ls, ls);
  (void)Cells::buffer(p, 1.0); (void)Cells::buffer(lr, 1.0); (void)Cells::buffer(ls, 1.0, 1);
  (void)Cells::buffer(c, 1.0); (void)Cells::buffer(cs, 1.0); (void)Cells::buffer(ml, 1.0);
  (void)Cell::convexHull(c); (void)Cell::convexHull(cs); (void)Cell::convexHull(ls); (void)Cell::convexHull(mp);
  (void)ml.intersection(c); (void)ml.intersection(cs);
  (void)std::hash<Point>{}(p);
  (void)f2c::Transform::transform(p, "", ""); (void)f2c::Transform::transform(ls, p, "", "");
  (void)f2c::Transform::transform(c, p, "", ""); (void)f2c::Transform::transform(cs, p, "", "");
}
template <class O> void objs(const O &o) { (void)o.isMinimizing(); (void)o.isMaximizing(); }
inline void turns(f2c::obj::CompleteTurnPathObj<f2c::pp::DubinsCurves> &o, const Point &a, const Point &b, const Swath &s) {
  (void)o.computeCost(a, 0.0, b, 0.0); (void)o.computeCost(s, s);
  (void)o.computeCostWithMinimizingSign(a, b);
  (void)o.computeCostWithMinimizingSign(a, 0.0, b, 0.0);
}
inline void sg(f2c::obj::SGObjective &o, const Swath &s, const Swaths &ss, const SwathsByCells &sc, const Cell &c, const Cells &cs) {
  (void)o.computeCostWithMinimizingSign(s); (void)o.computeCostWithMinimizingSign(c, ss); 
  (void)o.computeCostWithMinimizingSign(0.0, 1.0, c);
}
}  // namespace f2c_inst
template struct f2c::types::Geometry<OGRPoint, wkbPoint>;
template struct f2c::types::Geometry<OGRLineString, wkbLineString>;
template struct f2c::types::Geometry<OGRLinearRing, wkbLinearRing>;
template struct f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>;
template struct f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>;
template struct f2c::types::Geometry<OGRPolygon, wkbPolygon>;
template struct f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>;
