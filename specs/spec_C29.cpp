// Imported files: every coordinate, ring, name and number of the document, in its order; incomplete documents are reported.
#include "raw.h"
#include <fstream>
#include <tinyxml2.h>
#include <nlohmann/json.hpp>
#include "fields2cover/utils/parser.h"
#include "fields2cover/utils/transformation.h"
namespace f2c { F2CPoint getPointFromJson(const nlohmann::json& ps); F2CCell getCellFromJson(const nlohmann::json& c); }
namespace spec {
typedef nlohmann::json json;
// a position: two or three numbers
//= f2c::getPointFromJson(**)
F2CPoint position(const json& p) {
  if (p.size() == 3) return F2CPoint(p.at(0).get<double>(), p.at(1).get<double>(), p.at(2).get<double>());
  if (p.size() == 2) return F2CPoint(p.at(0).get<double>(), p.at(1).get<double>(), 0);
  return F2CPoint(0, 0, 0);
}
F2CLinearRing ring(const json& r) {
  F2CLinearRing out;
  for (size_t i = 0; i < r.size(); ++i) out.addPoint(position(r.at(i)));
  return out;
}
// a polygon: its rings in order, the first is the outer one
//= f2c::getCellFromJson(**)
F2CCell polygon(const json& feature) {
  F2CCell c;
  const json& rings = feature.at("geometry").at("coordinates");
  for (size_t i = 0; i < rings.size(); ++i) c.addRing(ring(rings.at(i)));
  return c;
}
json document(const std::string& file) { std::ifstream f(file); return json::parse(f); }
//= f2c::Parser::importCellJson(**) ;opaque=f2c::getCellFromJson(*
F2CCell first_cell(const std::string& file) { json d = document(file); return f2c::getCellFromJson(d["features"][0]); }
// one field per feature, after those already there
//= f2c::Parser::importJson(**) ;opaque=f2c::getCellFromJson(*
int fields(const std::string& file, F2CFields& out) {
  json d = document(file);
  json& all = d["features"];
  for (size_t i = 0; i < all.size(); ++i)
    out.push_back(F2CField(F2CCells(f2c::getCellFromJson(all.at(i))), all[i]["properties"]["Name"].get<std::string>()));
  return 0;
}
//= f2c::Parser::importSwathsJson(**)
F2CSwaths swaths(const std::string& file) {
  json d = document(file);
  json& all = d["features"];
  F2CSwaths out;
  for (size_t i = 0; i < all.size(); ++i) {
    F2CLineString l;
    json& ps = all[i]["geometry"]["coordinates"];
    for (size_t j = 0; j < ps.size(); ++j) l.addPoint(position(ps.at(j)));
    out.push_back(F2CSwath(l, all[i]["properties"]["width"].get<double>(), all[i]["properties"]["path_id"].get<int>()));
  }
  return out;
}
//= f2c::Parser::importStripsJson(**) ;opaque=f2c::getCellFromJson(*
F2CStrips strips(const std::string& file) {
  json d = document(file);
  json& all = d["features"];
  F2CStrips out;
  for (size_t i = 0; i < all.size(); ++i) {
    F2CStrip s;
    s.setName(all[i]["properties"]["crop_id"].get<std::string>());
    s.setCell(f2c::getCellFromJson(all.at(i)));
    out.push_back(s);
  }
  return out;
}
// GML writes "x,y x,y"; well-known text wants "x y, x y"
std::string with(std::string t, const std::string& from, const std::string& to) {
  for (size_t i = t.find(from); i != std::string::npos; i = t.find(from, i + to.size())) t.replace(i, from.size(), to);
  return t;
}
std::string wkt(const std::string& t) { return with(with(with(t, ",", ";"), " ", ", "), ";", " "); }
const tinyxml2::XMLElement* part(const tinyxml2::XMLElement* e, const char* name) {
  if (e == nullptr) throw std::invalid_argument("missing");
  return e->FirstChildElement(name);
}
//= f2c::Parser::importFieldGml(**) ;opaque=f2c::types::Field::Field(*|f2c::types::Cells::Cells(const OGRGeometry*|f2c::Transform::createSptRef(*|f2c::types::Field::setCRS(*
F2CField gml(const std::string& file, bool silent) {
  tinyxml2::XMLDocument doc;
  doc.LoadFile(file.c_str());
  const tinyxml2::XMLElement* root = doc.RootElement();
  const tinyxml2::XMLElement* poly = part(part(part(root, "Field"), "geometry"), "gml:Polygon");
  const tinyxml2::XMLElement* coords = part(part(part(poly, "gml:outerBoundaryIs"), "gml:LinearRing"), "gml:coordinates");
  if (coords == nullptr || coords->GetText() == nullptr || poly->Attribute("srsName") == nullptr) throw std::invalid_argument("missing");
  std::string crs = poly->Attribute("srsName");
  std::string id = root->Attribute("id") ? root->Attribute("id") : "";
  std::string text = "POLYGON ((" + wkt(coords->GetText()) + "))";
  auto srs = f2c::Transform::createSptRef(crs, silent);
  OGRGeometry* g = nullptr;
  if (OGRGeometryFactory::createFromWkt(text.c_str(), srs.get(), &g) != OGRERR_NONE || g == nullptr) throw std::invalid_argument("not a polygon");
  F2CField f{F2CCells(g), id};
  f.setCRS(crs);
  OGRGeometryFactory::destroyGeometry(g);
  return f;
}
//= f2c::Parser::importGml(**)
void append(const std::string& file, F2CFields& fields) { fields.push_back(f2c::Parser::importFieldGml(file)); }
}
