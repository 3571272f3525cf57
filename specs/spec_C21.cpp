// Moving objects between coordinate systems.
#include "spec.h"
#include <boost/algorithm/string.hpp>
namespace spec {
typedef const std::string& S;
// the value moved by the transformation between two named systems
template <class T> T moved(const T& t, S from, S to) { T r = t.clone(); r.get()->transform(f2c::Transform::generateCoordTransf(from, to).get()); return r; }
inline Point shifted(const Point& p, const Field& f, S to) { return moved(Point(px(p) + px(f.getRefPoint()), py(p) + py(f.getRefPoint()), pz(p) + pz(f.getRefPoint())), f.getCRS(), to); }
//= f2c::Transform::transform<f2c::types::Point>(const f2c::types::Point &, const std::**) ;opaque=*Transform::createSptRef(*
Point point(const Point& p, S from, S to) { return moved(p, from, to); }
//= f2c::Transform::transform<f2c::types::Cell>(const f2c::types::Cell &, const std::**) ;opaque=*Transform::createSptRef(*
Cell cell(const Cell& p, S from, S to) { return moved(p, from, to); }
//= f2c::Transform::transform<f2c::types::Cells>(const f2c::types::Cells &, const std::**) ;opaque=*Transform::createSptRef(*
Cells cells(const Cells& p, S from, S to) { return moved(p, from, to); }
//= f2c::Transform::transform<f2c::types::LineString>(const f2c::types::LineString &, const std::**) ;opaque=*Transform::createSptRef(*
LineString line(const LineString& p, S from, S to) { return moved(p, from, to); }
//= f2c::Transform::transform<f2c::types::LineString>(const f2c::types::LineString &, const f2c::types::Point &, **) ;opaque=*Transform::createSptRef(*
LineString linef(const LineString& p, const Point& r, S from, S to) { return moved(p + r, from, to); }
//= f2c::Transform::transform<f2c::types::Cell>(const f2c::types::Cell &, const f2c::types::Point &, **) ;opaque=*Transform::createSptRef(*
Cell cellf(const Cell& p, const Point& r, S from, S to) { return moved(p + r, from, to); }
//= f2c::Transform::transform<f2c::types::Cells>(const f2c::types::Cells &, const f2c::types::Point &, **) ;opaque=*Transform::createSptRef(*
Cells cellsf(const Cells& p, const Point& r, S from, S to) { return moved(p + r, from, to); }
// swaths, strips and their lists: every attribute stays, the geometry is moved
inline Swath withpath(const Swath& s, const LineString& l) { Swath r = s.clone(); r.setPath(l); return r; }
//= f2c::Transform::transformSwath(const f2c::types::Swath &, **) ;opaque=*Transform::createSptRef(*
Swath swath(const Swath& s, S from, S to) { return withpath(s, moved(s.getPath(), from, to)); }
//= f2c::Transform::transformSwathWithFieldRef(**) ;opaque=*Transform::createSptRef(*
Swath swathf(const Swath& s, const Field& f, S to) { return withpath(s, moved(s.getPath() + f.getRefPoint(), f.getCRS(), to)); }
//= f2c::Transform::transformSwaths(const f2c::types::Swaths &, **) ;opaque=*Transform::createSptRef(*
Swaths swaths(const Swaths& ss, S from, S to) {
  Swaths r;
  for (size_t i = 0; i < ss.size(); ++i) r.push_back(withpath(ss[i], moved(ss[i].getPath(), from, to)));
  return r;
}
inline Swaths movedf(const Swaths& ss, const Field& f, S to) {
  Swaths r;
  for (size_t i = 0; i < ss.size(); ++i) r.push_back(withpath(ss[i], moved(ss[i].getPath() + f.getRefPoint(), f.getCRS(), to)));
  return r;
}
//= f2c::Transform::transformSwathsWithFieldRef(**) ;opaque=*Transform::createSptRef(*
Swaths swathsf(const Swaths& ss, const Field& f, S to) { return movedf(ss, f, to); }
inline Strip movedstrip(const Strip& s, S from, S to) { Strip r; r.setName(s.getName()); r.setCell(moved(s.getCell(), from, to)); return r; }
//= f2c::Transform::transformStrip(**) ;opaque=*Transform::createSptRef(*
Strip strip(const Strip& s, S from, S to) { return movedstrip(s, from, to); }
//= f2c::Transform::transformStrips(**) ;opaque=*Transform::createSptRef(*
std::vector<Strip> strips(const std::vector<Strip>& ss, S from, S to) {
  std::vector<Strip> r;
  for (size_t i = 0; i < ss.size(); ++i) r.push_back(movedstrip(ss[i], from, to));
  return r;
}
// points of connections, one by one
inline MultiPoint movedmp(const MultiPoint& m, const Field& f, S to) {
  MultiPoint r;
  for (size_t i = 0; i < m.size(); ++i) r.addPoint(shifted(m.getGeometry(i), f, to));
  return r;
}
//= f2c::Transform::transformMultiPointWithFieldRef(**) ;opaque=*Transform::createSptRef(*
MultiPoint multi(const MultiPoint& m, const Field& f, S to) { return movedmp(m, f, to); }
// every swath and connection of a route
//= f2c::Transform::transformRouteWithFieldRef(**) ;opaque=*Transform::createSptRef(*
Route route(const Route& r, const Field& f, S to) {
  std::vector<Swaths> v;
  std::vector<MultiPoint> c;
  for (size_t i = 0; i < r.getVectorSwaths().size(); ++i) v.push_back(movedf(r.getVectorSwaths()[i], f, to));
  for (size_t i = 0; i < r.getConnections().size(); ++i) c.push_back(movedmp(r.getConnections()[i], f, to));
  Route n;
  for (size_t i = 0; i < v.size(); ++i) n.v_swaths_.push_back(v[i]);
  for (size_t i = 0; i < c.size(); ++i) n.connections_.push_back(c[i]);
  return n;
}
// every state of a path
//= f2c::Transform::transformPath(**) ;opaque=*Transform::createSptRef(*
Path path(const Path& p, S from, S to) {
  Path r;
  for (size_t i = 0; i < p.getStates().size(); ++i) {
    PathState s = p.getStates()[i];
    s.point = moved(s.point, from, to);
    r.addState(s);
  }
  return r;
}
//= f2c::Transform::transformPathWithFieldRef(**) ;opaque=*Transform::createSptRef(*
Path pathf(const Path& p, const Field& f, S to) {
  std::vector<PathState> v = p.getStates();
  const size_t n = v.size();
  if (n == 0) return p;
  if (v[n - 1].len > 0.0) {   // the end of the last state is a point of the path as well
    PathState e = v[n - 1];
    e.point = p.atEnd();
    e.len = 0.0;
    v.push_back(e);
  }
  std::vector<PathState> w;
  for (size_t i = 0; i < v.size(); ++i) {
    PathState s = v[i];
    s.point = shifted(v[i].point, f, to);
    w.push_back(s);
  }
  Path r;
  for (size_t i = 0; i < w.size(); ++i) {
    PathState s = w[i];
    if (i + 1 < w.size()) {
      s.len = w[i].point.distance(w[i + 1].point);
      s.angle = (w[i + 1].point - w[i].point).getAngleFromPoint();
    }
    r.addState(s);
  }
  return r;
}
// going back to the system the field came from
//= f2c::Transform::transformToPrevCRS(const f2c::types::Route &, **) ;opaque=*Transform::createSptRef(*
Route backroute(const Route& r, const Field& f) { return f2c::Transform::transformRouteWithFieldRef(r, f, f.getPrevCRS()); }
//= f2c::Transform::transformToPrevCRS(const f2c::types::Path &, **) ;opaque=*Transform::createSptRef(*
Path backpath(const Path& r, const Field& f) { return f2c::Transform::transformPathWithFieldRef(r, f, f.getPrevCRS()); }
//= f2c::Transform::transformToPrevCRS(const f2c::types::Swath &, **) ;opaque=*Transform::createSptRef(*
Swath backswath(const Swath& r, const Field& f) { return f2c::Transform::transformSwathWithFieldRef(r, f, f.getPrevCRS()); }
//= f2c::Transform::transformToPrevCRS(const f2c::types::Swaths &, **) ;opaque=*Transform::createSptRef(*
Swaths backswaths(const Swaths& r, const Field& f) { return f2c::Transform::transformSwathsWithFieldRef(r, f, f.getPrevCRS()); }
//= f2c::Transform::transformToPrevCRS(const f2c::types::Strip &, **) ;opaque=*Transform::createSptRef(*
Strip backstrip(const Strip& s, const Field& f) { return movedstrip(s, f.getCRS(), f.getPrevCRS()); }
//= f2c::Transform::transformToPrevCRS(const std::vector<f2c::types::Strip**) ;opaque=*Transform::createSptRef(*
std::vector<Strip> backstrips(const std::vector<Strip>& s, const Field& f) { return f2c::Transform::transformStrips(s, f.getCRS(), f.getPrevCRS()); }
//= f2c::Transform::transformToPrevCRS(f2c::types::Field &) ;opaque=*Transform::createSptRef(*
void backfield(Field& f) {
  if (f.getPrevCRS() == "") throw std::invalid_argument("");
  std::string to = f.getPrevCRS();
  f2c::Transform::transform(f, to);
}
//= f2c::Transform::getRefPointInGPS(**) ;opaque=*Transform::createSptRef(*
Point gps(const Field& f) { return moved(f.getRefPoint(), f.getCRS(), "EPSG:4326"); }
// the field itself: the cells are moved in absolute coordinates and stay relative to the first point of the border
//= f2c::Transform::transform(f2c::types::Field &, **) ;opaque=*Transform::createSptRef(*
void field(Field& f, S to) {
  std::string from = f.getCRS();
  if (f.getField().isEmpty()) {
    f.setRefPoint(moved(f.getRefPoint(), from, to));
  } else {
    Cells c = moved(f.getField() + f.getRefPoint(), from, to);
    Point first = c.getCellBorder(0).startPoint();
    f.setRefPoint(first);
    f.setField(c - first);
  }
  f.setPrevCRS(from);
  f.setCRS(to);
}
// the zone of the reference point; fields whose system is not named are recognised by their coordinates
inline bool europe(const Point& p) { return px(p) > -16.1 && px(p) < 32.88 && py(p) > 40.18 && py(p) < 84.73; }
//= f2c::Transform::transformToUTM(**) ;opaque=*Transform::createSptRef(*|*Transform::transform(f2c::types::Field*
void toutm(Field& f, bool etrs89) {
  std::string from = f.getCRS();
  if (from == "") {
    if (f.getRefPoint() == Point(0, 0)) { f = f.clone(); throw std::out_of_range(""); }
    Point p = f.getRefPoint();
    if (etrs89 && europe(p)) from = "EPSG:4258";
    else if (px(p) > -180 && px(p) < 180 && py(p) > -90 && py(p) < 90) from = "EPSG:4326";
    else throw std::invalid_argument("");
    f.setCRS(from);
  } else if (from != "EPSG:4326" && from != "EPSG:4258") {
    f2c::Transform::transform(f, "EPSG:4326");
    if (etrs89 && europe(f.getRefPoint())) f2c::Transform::transform(f, "EPSG:4258");
  }
  const Point& p = f.getRefPoint();
  double zone = std::floor((px(p) + 180) / 6) + 1;
  assume(zone >= 0);
  std::string to = "UTM:" + std::to_string(size_t(zone)) + (py(p) > 0 ? "N" : "S") + " datum:" + (f.getCRS() == "EPSG:4258" ? "ETRS89" : "WGS84");
  f2c::Transform::transform(f, to);
  f.setPrevCRS(from);
}
// close to the limits of the area of ETRS89
inline double around(double a, double b, double t) { double m = (b - a) / 4; return a - m + (b - a + 2 * m) * (std::fabs(t) - std::floor(std::fabs(t))); }
inline Field located(double x, double y, const std::string& crs) { Field f; assume(around(40.18, 84.73, y / 7) < 90); f.setRefPoint(Point(around(-16.1, 32.88, x / 7), around(40.18, 84.73, y / 7))); f.setCRS(crs); return f; }
std::string lhs_near(double x, double y, bool etrs) { Field f = located(x, y, ""); f2c::Transform::transformToUTM(f, etrs); return f.getPrevCRS(); }
//= spec::lhs_near ;opaque=*Transform::createSptRef(*|*Transform::transform(f2c::types::Field* ;compare=ret
std::string near(double x, double y, bool etrs) { Field f = located(x, y, ""); const Point& p = f.getRefPoint(); return etrs && europe(p) ? "EPSG:4258" : "EPSG:4326"; }
// the reference systems that names stand for
typedef std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> Ref;
//= f2c::Transform::createSptRef(**) ;opaque=*Field::getUTM*|*Field::getEPSG*|*Field::isCoord*
Ref named(S name, bool silent) {
  Ref r(new OGRSpatialReference(), [](OGRSpatialReference* p) { OGRSpatialReference::DestroySpatialReference(p); });
  if (name == "" && !silent) throw std::invalid_argument("");
  if (Field::isCoordSystemEPSG(name)) {
    r->importFromEPSG(Field::getEPSGCoordSystem(name));
  } else if (Field::isCoordSystemUTM(name)) {
    std::string d = Field::getUTMDatum(name);
    std::string s = "+proj=utm +zone=" + Field::getUTMZone(name) + " " + Field::getUTMHemisphere(name);
    if (boost::iequals(d, "ETRS89")) s += " +ellps=GRS80 +towgs84=0,0,0,0,0,0,0 +type=crs";
    else s += " +datum=" + d;
    s += " +units=m +no_defs ";
    r->importFromProj4(s.c_str());
  } else if (!silent) {
    throw std::invalid_argument("");
  }
  if (GDALVersionInfo("VERSION_NUM")[0] == '3') r->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
  return r;
}
typedef std::unique_ptr<OGRCoordinateTransformation, void(*)(OGRCoordinateTransformation*)> Trans;
//= f2c::Transform::generateCoordTransf(**) ;opaque=*Transform::createSptRef(*
Trans between(S from, S to) {
  return Trans(OGRCreateCoordinateTransformation(f2c::Transform::createSptRef(from).get(), f2c::Transform::createSptRef(to).get()),
               [](OGRCoordinateTransformation* p) { OGRCoordinateTransformation::DestroyCT(p); });
}
}
