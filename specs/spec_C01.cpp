// A copy made by clone shows exactly what the original shows.
#include "raw.h"
namespace spec {
//= f2c::types::Point::clone() const
Point point_same(const Point& p) { return p; }
//= f2c::types::Geometries<f2c::types::LineString,**>::clone() const
LineString line_same(const Geometries<LineString, OGRLineString, wkbLineString, Point>& s) { return static_cast<const LineString&>(s); }
//= f2c::types::Geometries<f2c::types::LinearRing,**>::clone() const
LinearRing ring_same(const Geometries<LinearRing, OGRLinearRing, wkbLinearRing, Point>& s) { return static_cast<const LinearRing&>(s); }
//= f2c::types::Geometries<f2c::types::MultiPoint,**>::clone() const
MultiPoint points_same(const Geometries<MultiPoint, OGRMultiPoint, wkbMultiPoint, Point>& s) { return static_cast<const MultiPoint&>(s); }
//= f2c::types::Geometries<f2c::types::MultiLineString,**>::clone() const
MultiLineString lines_same(const Geometries<MultiLineString, OGRMultiLineString, wkbMultiLineString, LineString>& s) { return static_cast<const MultiLineString&>(s); }
//= f2c::types::Geometries<f2c::types::Cell,**>::clone() const
Cell cell_same(const Geometries<Cell, OGRPolygon, wkbPolygon, LinearRing>& s) { return static_cast<const Cell&>(s); }
//= f2c::types::Geometries<f2c::types::Cells,**>::clone() const
Cells cells_same(const Geometries<Cells, OGRMultiPolygon, wkbMultiPolygon, Cell>& s) { return static_cast<const Cells&>(s); }
//= f2c::types::Swath::clone() const
Swath swath_same(const Swath& s) { return s; }
//= f2c::types::Swaths::clone() const
Swaths swaths_same(const Swaths& s) { return s; }
//= f2c::types::SwathsByCells::clone() const
SwathsByCells by_cells_same(const SwathsByCells& s) { return s; }
//= f2c::types::Strip::clone() const
Strip strip_same(const Strip& s) { return s; }
//= f2c::types::Field::clone() const
Field field_same(const Field& s) { return s; }
//= f2c::types::Route::clone() const
Route route_same(const Route& s) { return s; }
Cell lhs_strip_cell(Strip& s, const Cell& c) { s.setCell(c); return s.getCell(); }
//= spec::lhs_strip_cell
Cell strip_cell(Strip& s, const Cell& c) { return c; }
Cell lhs_strip_change(Strip& s, const Cell& c) { s.getCell() = c; const Strip& t = s; return t.getCell(); }
//= spec::lhs_strip_change
Cell strip_change(Strip& s, const Cell& c) { return c; }
}
