// Text: the formats a geometry is written in, and the files a path is kept in.
#include "raw.h"
#include "fields2cover/types/Path.h"
#include <fstream>
namespace f2c::types { std::string to_string(double, const int precision = 6); }
namespace spec {
// the text of a geometry is the one the geometry library writes for it; reading takes what the library reads
std::string lhs_point_wkt(const Point& g) { return g.exportToWkt(); }
//= spec::lhs_point_wkt
std::string point_wkt(const Point& g) { char* t = nullptr; g.get()->exportToWkt(&t); return std::string(t); }
std::string lhs_point_gml(const Point& g) { return g.exportToGML(); }
//= spec::lhs_point_gml
std::string point_gml(const Point& g) { return std::string(g.get()->exportToGML()); }
std::string lhs_point_kml(const Point& g) { return g.exportToKML(); }
//= spec::lhs_point_kml
std::string point_kml(const Point& g) { return std::string(g.get()->exportToKML()); }
std::string lhs_point_json(const Point& g) { return g.exportToJson(); }
//= spec::lhs_point_json
std::string point_json(const Point& g) { return std::string(g.get()->exportToJson()); }
void lhs_point_read(Point& g, const std::string& s) { g.importFromWkt(s); }
//= spec::lhs_point_read
void point_read(Point& g, const std::string& s) { const char* t = s.c_str(); g.get()->importFromWkt(&t); }
std::string lhs_linestring_wkt(const LineString& g) { return g.exportToWkt(); }
//= spec::lhs_linestring_wkt
std::string linestring_wkt(const LineString& g) { char* t = nullptr; g.get()->exportToWkt(&t); return std::string(t); }
std::string lhs_linestring_gml(const LineString& g) { return g.exportToGML(); }
//= spec::lhs_linestring_gml
std::string linestring_gml(const LineString& g) { return std::string(g.get()->exportToGML()); }
std::string lhs_linestring_kml(const LineString& g) { return g.exportToKML(); }
//= spec::lhs_linestring_kml
std::string linestring_kml(const LineString& g) { return std::string(g.get()->exportToKML()); }
std::string lhs_linestring_json(const LineString& g) { return g.exportToJson(); }
//= spec::lhs_linestring_json
std::string linestring_json(const LineString& g) { return std::string(g.get()->exportToJson()); }
void lhs_linestring_read(LineString& g, const std::string& s) { g.importFromWkt(s); }
//= spec::lhs_linestring_read
void linestring_read(LineString& g, const std::string& s) { const char* t = s.c_str(); g.get()->importFromWkt(&t); }
std::string lhs_linearring_wkt(const LinearRing& g) { return g.exportToWkt(); }
//= spec::lhs_linearring_wkt
std::string linearring_wkt(const LinearRing& g) { char* t = nullptr; g.get()->exportToWkt(&t); return std::string(t); }
std::string lhs_linearring_gml(const LinearRing& g) { return g.exportToGML(); }
//= spec::lhs_linearring_gml
std::string linearring_gml(const LinearRing& g) { return std::string(g.get()->exportToGML()); }
std::string lhs_linearring_kml(const LinearRing& g) { return g.exportToKML(); }
//= spec::lhs_linearring_kml
std::string linearring_kml(const LinearRing& g) { return std::string(g.get()->exportToKML()); }
std::string lhs_linearring_json(const LinearRing& g) { return g.exportToJson(); }
//= spec::lhs_linearring_json
std::string linearring_json(const LinearRing& g) { return std::string(g.get()->exportToJson()); }
void lhs_linearring_read(LinearRing& g, const std::string& s) { g.importFromWkt(s); }
//= spec::lhs_linearring_read
void linearring_read(LinearRing& g, const std::string& s) { const char* t = s.c_str(); g.get()->importFromWkt(&t); }
std::string lhs_multipoint_wkt(const MultiPoint& g) { return g.exportToWkt(); }
//= spec::lhs_multipoint_wkt
std::string multipoint_wkt(const MultiPoint& g) { char* t = nullptr; g.get()->exportToWkt(&t); return std::string(t); }
std::string lhs_multipoint_gml(const MultiPoint& g) { return g.exportToGML(); }
//= spec::lhs_multipoint_gml
std::string multipoint_gml(const MultiPoint& g) { return std::string(g.get()->exportToGML()); }
std::string lhs_multipoint_kml(const MultiPoint& g) { return g.exportToKML(); }
//= spec::lhs_multipoint_kml
std::string multipoint_kml(const MultiPoint& g) { return std::string(g.get()->exportToKML()); }
std::string lhs_multipoint_json(const MultiPoint& g) { return g.exportToJson(); }
//= spec::lhs_multipoint_json
std::string multipoint_json(const MultiPoint& g) { return std::string(g.get()->exportToJson()); }
void lhs_multipoint_read(MultiPoint& g, const std::string& s) { g.importFromWkt(s); }
//= spec::lhs_multipoint_read
void multipoint_read(MultiPoint& g, const std::string& s) { const char* t = s.c_str(); g.get()->importFromWkt(&t); }
std::string lhs_multilinestring_wkt(const MultiLineString& g) { return g.exportToWkt(); }
//= spec::lhs_multilinestring_wkt
std::string multilinestring_wkt(const MultiLineString& g) { char* t = nullptr; g.get()->exportToWkt(&t); return std::string(t); }
std::string lhs_multilinestring_gml(const MultiLineString& g) { return g.exportToGML(); }
//= spec::lhs_multilinestring_gml
std::string multilinestring_gml(const MultiLineString& g) { return std::string(g.get()->exportToGML()); }
std::string lhs_multilinestring_kml(const MultiLineString& g) { return g.exportToKML(); }
//= spec::lhs_multilinestring_kml
std::string multilinestring_kml(const MultiLineString& g) { return std::string(g.get()->exportToKML()); }
std::string lhs_multilinestring_json(const MultiLineString& g) { return g.exportToJson(); }
//= spec::lhs_multilinestring_json
std::string multilinestring_json(const MultiLineString& g) { return std::string(g.get()->exportToJson()); }
void lhs_multilinestring_read(MultiLineString& g, const std::string& s) { g.importFromWkt(s); }
//= spec::lhs_multilinestring_read
void multilinestring_read(MultiLineString& g, const std::string& s) { const char* t = s.c_str(); g.get()->importFromWkt(&t); }
std::string lhs_cell_wkt(const Cell& g) { return g.exportToWkt(); }
//= spec::lhs_cell_wkt
std::string cell_wkt(const Cell& g) { char* t = nullptr; g.get()->exportToWkt(&t); return std::string(t); }
std::string lhs_cell_gml(const Cell& g) { return g.exportToGML(); }
//= spec::lhs_cell_gml
std::string cell_gml(const Cell& g) { return std::string(g.get()->exportToGML()); }
std::string lhs_cell_kml(const Cell& g) { return g.exportToKML(); }
//= spec::lhs_cell_kml
std::string cell_kml(const Cell& g) { return std::string(g.get()->exportToKML()); }
std::string lhs_cell_json(const Cell& g) { return g.exportToJson(); }
//= spec::lhs_cell_json
std::string cell_json(const Cell& g) { return std::string(g.get()->exportToJson()); }
void lhs_cell_read(Cell& g, const std::string& s) { g.importFromWkt(s); }
//= spec::lhs_cell_read
void cell_read(Cell& g, const std::string& s) { const char* t = s.c_str(); g.get()->importFromWkt(&t); }
std::string lhs_cells_wkt(const Cells& g) { return g.exportToWkt(); }
//= spec::lhs_cells_wkt
std::string cells_wkt(const Cells& g) { char* t = nullptr; g.get()->exportToWkt(&t); return std::string(t); }
std::string lhs_cells_gml(const Cells& g) { return g.exportToGML(); }
//= spec::lhs_cells_gml
std::string cells_gml(const Cells& g) { return std::string(g.get()->exportToGML()); }
std::string lhs_cells_kml(const Cells& g) { return g.exportToKML(); }
//= spec::lhs_cells_kml
std::string cells_kml(const Cells& g) { return std::string(g.get()->exportToKML()); }
std::string lhs_cells_json(const Cells& g) { return g.exportToJson(); }
//= spec::lhs_cells_json
std::string cells_json(const Cells& g) { return std::string(g.get()->exportToJson()); }
void lhs_cells_read(Cells& g, const std::string& s) { g.importFromWkt(s); }
//= spec::lhs_cells_read
void cells_read(Cells& g, const std::string& s) { const char* t = s.c_str(); g.get()->importFromWkt(&t); }
//= f2c::types::Path::serializePath(**) const ;opaque=f2c::types::to_string(*
std::string path_text(const Path& self, size_t digits) {
  std::string r;
  for (size_t i = 0; i < self.size(); ++i) {
    const PathState& s = self.getState(i);
    r += f2c::types::to_string(s.point.getX(), digits) + " " + f2c::types::to_string(s.point.getY(), digits) + " " + f2c::types::to_string(s.point.getZ(), digits) + " " +
         f2c::types::to_string(s.angle, digits) + " " + f2c::types::to_string(s.velocity, digits) + " " + f2c::types::to_string(s.len, digits) + " " +
         f2c::types::to_string(static_cast<int>(s.dir)) + " " + f2c::types::to_string(static_cast<int>(s.type)) + "\n";
  }
  return r;
}
struct Sep : std::numpunct<char> { explicit Sep(char c) : c(c) {} char do_decimal_point() const override { return c; } char c; };
// a number, in the digits asked for, with a point whatever the locale
std::string lhs_number(double d, int digits) { return f2c::types::to_string(d, digits); }
//= spec::lhs_number
std::string number(double d, int digits) { std::stringstream s; s.precision(digits); s.imbue(std::locale(std::locale(), new Sep('.'))); s << d; return s.str(); }
//= f2c::types::Path::loadFile(**) ;maxlen=24
void path_load(Path& self, const std::string& file) {
  std::ifstream in(file);
  std::vector<double> v;
  double d;
  while (in >> d) v.push_back(d);
  for (size_t i = 0; i + 8 <= v.size(); i += 8) {
    PathState s;
    s.point = Point(v[i], v[i + 1], v[i + 2]);
    s.angle = v[i + 3];
    s.velocity = v[i + 4];
    s.len = v[i + 5];
    s.dir = static_cast<PathDirection>(v[i + 6]);
    s.type = static_cast<PathSectionType>(v[i + 7]);
    self.states_.push_back(s);
  }
}
}
