// What a field reports about itself and about coordinate systems.
#include "spec.h"
namespace spec {
// what was set is reported, and nothing else changes
struct Seen { std::string id, crs, prev; Point ref; Cells cells; double area; bool empty; };
inline Seen seen(const Field& f) { return Seen{f.getId(), f.getCRS(), f.getPrevCRS(), f.getRefPoint(), f.getField(), f.area(), f.isEmpty()}; }
inline Seen as(const std::string& id, const std::string& crs, const std::string& prev, const Point& ref, const Cells& c) {
  return Seen{id, crs, prev, ref, c, c.area(), c.isEmpty()};
}
Seen lhs_id(Field f, const std::string& s) { f.setId(s); return seen(f); }
//= spec::lhs_id
Seen id(Field f, const std::string& s) { Seen r = seen(f); r.id = s; return r; }
Seen lhs_crs(Field f, const std::string& s) { f.setCRS(s); return seen(f); }
//= spec::lhs_crs
Seen crs(Field f, const std::string& s) { Seen r = seen(f); r.crs = s; return r; }
Seen lhs_prev(Field f, const std::string& s) { f.setPrevCRS(s); return seen(f); }
//= spec::lhs_prev
Seen prev(Field f, const std::string& s) { Seen r = seen(f); r.prev = s; return r; }
Seen lhs_ref(Field f, const Point& p) { f.setRefPoint(p); return seen(f); }
//= spec::lhs_ref
Seen ref(Field f, const Point& p) { Seen r = seen(f); r.ref = p; return r; }
Seen lhs_cells(Field f, const Cells& c) { f.setField(c); return seen(f); }
//= spec::lhs_cells
Seen cells(Field f, const Cells& c) { Seen r = seen(f); r.cells = c; r.area = c.area(); r.empty = c.isEmpty(); return r; }
Seen lhs_copy(const Field& f) { return seen(f.clone()); }
//= spec::lhs_copy
Seen copy(const Field& f) { return seen(f); }
Seen lhs_empty() { return seen(Field()); }
//= spec::lhs_empty
Seen empty() { return as("", "", "", Point(), Cells()); }
// a field keeps its cells relative to the first point of its border
Seen lhs_made(const Cells& c, const std::string& id) { assume(c.isEmpty() || c.getCellBorder(0).size() > 0); return seen(Field(c, id)); }
//= spec::lhs_made
Seen made(const Cells& c, const std::string& id) {
  Point p;
  if (!c.isEmpty()) { assume(c.getGeometry(0).getExteriorRing().size() > 0); p = c.getGeometry(0).getExteriorRing().getGeometry(0); }
  return as(id, "", "", p, c - p);
}
Cells lhs_abs(const Field& f) { return f.getCellsAbsPosition(); }
//= spec::lhs_abs
Cells abs(const Field& f) { return f.getField() + f.getRefPoint(); }
// coordinate systems
//= f2c::types::Field::isCoordSystemUTM(const std::**)
bool isutm(const std::string& s) { return s.find("UTM:") != std::string::npos; }
//= f2c::types::Field::isCoordSystemEPSG(const std::**)
bool isepsg(const std::string& s) { return s.find("EPSG:") != std::string::npos; }
inline std::string utm(int z, bool north, const std::string& datum) { return "UTM:" + std::to_string(z) + (north ? "N" : "S") + datum; }
std::string lhs_zone(uint32_t z, bool north, bool datum) { return Field::getUTMZone(utm(z % 60 + 1, north, datum ? " datum:WGS84" : "")); }
//= spec::lhs_zone
std::string zone(uint32_t z, bool north, bool datum) { return std::to_string(z % 60 + 1); }
std::string lhs_hemi(uint32_t z, bool north, bool datum) { return Field::getUTMHemisphere(utm(z % 60 + 1, north, datum ? " datum:WGS84" : "")); }
//= spec::lhs_hemi
std::string hemi(uint32_t z, bool north, bool datum) { return north ? "+north" : "+south"; }
std::string lhs_small(uint32_t z, uint32_t l) { return Field::getUTMHemisphere("UTM:" + std::to_string(z % 60 + 1) + (l % 3 == 0 ? "n" : l % 3 == 1 ? "s" : "Z") + " datum:WGS84"); }
//= spec::lhs_small
std::string small(uint32_t z, uint32_t l) { return l % 3 == 0 ? "+north" : l % 3 == 1 ? "+south" : ""; }
std::string lhs_datum(uint32_t z, bool north, uint32_t d) { return Field::getUTMDatum(utm(z % 60 + 1, north, d % 3 == 0 ? " datum:WGS84" : d % 3 == 1 ? " datum: NAD83" : "")); }
//= spec::lhs_datum
std::string datum(uint32_t z, bool north, uint32_t d) { return d % 3 == 0 ? "WGS84" : d % 3 == 1 ? "NAD83" : "etrs89"; }
std::string lhs_coord(uint32_t z, bool north, uint32_t d) { return Field::getUTMCoordSystem(d % 2 ? utm(z % 60 + 1, north, " datum:WGS84") : "UTM " + std::to_string(z % 60 + 1) + (north ? "N" : "S")); }
//= spec::lhs_coord
std::string coord(uint32_t z, bool north, uint32_t d) { return std::to_string(z % 60 + 1) + (north ? "N" : "S"); }
// the first zone that is named counts, wherever it is
std::string lhs_first(uint32_t z, uint32_t y, bool north) { std::string n = "in " + utm(z % 60 + 1, north, " datum:WGS84") + ", not in " + utm(y % 60 + 1, !north, " datum:NAD83"); return Field::getUTMCoordSystem(n) + " " + Field::getUTMZone(n) + Field::getUTMHemisphere(n) + Field::getUTMDatum(n); }
//= spec::lhs_first
std::string first(uint32_t z, uint32_t y, bool north) { return std::to_string(z % 60 + 1) + (north ? "N" : "S") + " " + std::to_string(z % 60 + 1) + (north ? "+north" : "+south") + "WGS84"; }
std::string lhs_nocoord(uint32_t code, const std::string& other) { return Field::getUTMCoordSystem("EPSG:" + std::to_string(code), other) + Field::getUTMDatum("EPSG:" + std::to_string(code), other); }
//= spec::lhs_nocoord
std::string nocoord(uint32_t code, const std::string& other) { return other + other; }
std::string lhs_nozone(uint32_t code) { std::string s = "EPSG:" + std::to_string(code); return Field::getUTMZone(s) + Field::getUTMHemisphere(s); }
//= spec::lhs_nozone
std::string nozone(uint32_t code) { return ""; }
int lhs_code(uint32_t code) { return Field::getEPSGCoordSystem("EPSG:" + std::to_string(code)); }
//= spec::lhs_code
int code(uint32_t code) { return int(code); }
int lhs_nocode(uint32_t z, bool north) { return Field::getEPSGCoordSystem(utm(z, north, "")); }
//= spec::lhs_nocode
int nocode(uint32_t z, bool north) { return -1; }
// the same questions about the field's own coordinate system
struct Sys { bool utm, epsg; std::string coord, datum, zone, hemi; int code; };
Sys lhs_sys(Field f, uint32_t n, bool north, bool epsg) {
  f.setCRS(epsg ? "EPSG:" + std::to_string(n) : utm(n % 60 + 1, north, " datum:WGS84"));
  return Sys{f.isCoordSystemUTM(), f.isCoordSystemEPSG(), f.getUTMCoordSystem(), f.getUTMDatum(), f.getUTMZone(), f.getUTMHemisphere(), f.getEPSGCoordSystem()};
}
//= spec::lhs_sys
Sys sys(Field f, uint32_t n, bool north, bool epsg) {
  if (epsg) return Sys{false, true, "", "etrs89", "", "", int(n)};
  return Sys{true, false, std::to_string(n % 60 + 1) + (north ? "N" : "S"), "WGS84", std::to_string(n % 60 + 1), north ? "+north" : "+south", -1};
}
// setting a coordinate system by code, by zone, or by zone and datum
Seen lhs_setcode(Field f, uint32_t n) { f.setEPSGCoordSystem(int(n)); return seen(f); }
//= spec::lhs_setcode
Seen setcode(Field f, uint32_t n) { Seen r = seen(f); r.crs = "EPSG:" + std::to_string(int(n)); return r; }
Seen lhs_setutm(Field f, uint32_t z, bool north, bool datum) { f.setUTMCoordSystem(utm(z % 60 + 1, north, datum ? " datum:WGS84" : "")); return seen(f); }
//= spec::lhs_setutm
Seen setutm(Field f, uint32_t z, bool north, bool datum) { Seen r = seen(f); r.crs = utm(z % 60 + 1, north, datum ? " datum:WGS84" : " datum:etrs89"); return r; }
Seen lhs_setutm2(Field f, uint32_t z, bool north, bool pre, bool pre2) { f.setUTMCoordSystem((pre ? "UTM:" : "") + std::to_string(z % 60 + 1) + (north ? "N" : "S"), (pre2 ? "datum:" : "") + std::string("NAD83")); return seen(f); }
//= spec::lhs_setutm2
Seen setutm2(Field f, uint32_t z, bool north, bool pre, bool pre2) { Seen r = seen(f); r.crs = utm(z % 60 + 1, north, " datum:NAD83"); return r; }
}
