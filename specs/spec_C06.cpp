// Measures, predicates and set operations are those of the underlying geometries.
#include "raw.h"
namespace spec {
inline OGREnvelope box(const OGRGeometry* g) { OGREnvelope e; g->getEnvelope(&e); return e; }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::getDimMinX() const
double point_getDimMinX(const Point& s) { OGREnvelope e = box(s.get()); return e.MinX; }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::getDimMaxX() const
double point_getDimMaxX(const Point& s) { OGREnvelope e = box(s.get()); return e.MaxX; }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::getDimMinY() const
double point_getDimMinY(const Point& s) { OGREnvelope e = box(s.get()); return e.MinY; }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::getDimMaxY() const
double point_getDimMaxY(const Point& s) { OGREnvelope e = box(s.get()); return e.MaxY; }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::getHeight() const
double point_getHeight(const Point& s) { OGREnvelope e = box(s.get()); return e.MaxY - e.MinY; }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::getWidth() const
double point_getWidth(const Point& s) { OGREnvelope e = box(s.get()); return e.MaxX - e.MinX; }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::getMinSafeLength() const
double point_getMinSafeLength(const Point& s) { OGREnvelope e = box(s.get()); return (e.MaxX - e.MinX) + (e.MaxY - e.MinY); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::isEmpty() const
bool point_empty(const Point& s) { return s.get()->IsEmpty(); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::getDimMinX() const
double linestring_getDimMinX(const LineString& s) { OGREnvelope e = box(s.get()); return e.MinX; }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::getDimMaxX() const
double linestring_getDimMaxX(const LineString& s) { OGREnvelope e = box(s.get()); return e.MaxX; }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::getDimMinY() const
double linestring_getDimMinY(const LineString& s) { OGREnvelope e = box(s.get()); return e.MinY; }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::getDimMaxY() const
double linestring_getDimMaxY(const LineString& s) { OGREnvelope e = box(s.get()); return e.MaxY; }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::getHeight() const
double linestring_getHeight(const LineString& s) { OGREnvelope e = box(s.get()); return e.MaxY - e.MinY; }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::getWidth() const
double linestring_getWidth(const LineString& s) { OGREnvelope e = box(s.get()); return e.MaxX - e.MinX; }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::getMinSafeLength() const
double linestring_getMinSafeLength(const LineString& s) { OGREnvelope e = box(s.get()); return (e.MaxX - e.MinX) + (e.MaxY - e.MinY); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::isEmpty() const
bool linestring_empty(const LineString& s) { return s.get()->IsEmpty(); }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::getDimMinX() const
double linearring_getDimMinX(const LinearRing& s) { OGREnvelope e = box(s.get()); return e.MinX; }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::getDimMaxX() const
double linearring_getDimMaxX(const LinearRing& s) { OGREnvelope e = box(s.get()); return e.MaxX; }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::getDimMinY() const
double linearring_getDimMinY(const LinearRing& s) { OGREnvelope e = box(s.get()); return e.MinY; }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::getDimMaxY() const
double linearring_getDimMaxY(const LinearRing& s) { OGREnvelope e = box(s.get()); return e.MaxY; }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::getHeight() const
double linearring_getHeight(const LinearRing& s) { OGREnvelope e = box(s.get()); return e.MaxY - e.MinY; }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::getWidth() const
double linearring_getWidth(const LinearRing& s) { OGREnvelope e = box(s.get()); return e.MaxX - e.MinX; }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::getMinSafeLength() const
double linearring_getMinSafeLength(const LinearRing& s) { OGREnvelope e = box(s.get()); return (e.MaxX - e.MinX) + (e.MaxY - e.MinY); }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::isEmpty() const
bool linearring_empty(const LinearRing& s) { return s.get()->IsEmpty(); }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::getDimMinX() const
double multipoint_getDimMinX(const MultiPoint& s) { OGREnvelope e = box(s.get()); return e.MinX; }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::getDimMaxX() const
double multipoint_getDimMaxX(const MultiPoint& s) { OGREnvelope e = box(s.get()); return e.MaxX; }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::getDimMinY() const
double multipoint_getDimMinY(const MultiPoint& s) { OGREnvelope e = box(s.get()); return e.MinY; }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::getDimMaxY() const
double multipoint_getDimMaxY(const MultiPoint& s) { OGREnvelope e = box(s.get()); return e.MaxY; }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::getHeight() const
double multipoint_getHeight(const MultiPoint& s) { OGREnvelope e = box(s.get()); return e.MaxY - e.MinY; }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::getWidth() const
double multipoint_getWidth(const MultiPoint& s) { OGREnvelope e = box(s.get()); return e.MaxX - e.MinX; }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::getMinSafeLength() const
double multipoint_getMinSafeLength(const MultiPoint& s) { OGREnvelope e = box(s.get()); return (e.MaxX - e.MinX) + (e.MaxY - e.MinY); }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::isEmpty() const
bool multipoint_empty(const MultiPoint& s) { return s.get()->IsEmpty(); }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::getDimMinX() const
double multilinestring_getDimMinX(const MultiLineString& s) { OGREnvelope e = box(s.get()); return e.MinX; }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::getDimMaxX() const
double multilinestring_getDimMaxX(const MultiLineString& s) { OGREnvelope e = box(s.get()); return e.MaxX; }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::getDimMinY() const
double multilinestring_getDimMinY(const MultiLineString& s) { OGREnvelope e = box(s.get()); return e.MinY; }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::getDimMaxY() const
double multilinestring_getDimMaxY(const MultiLineString& s) { OGREnvelope e = box(s.get()); return e.MaxY; }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::getHeight() const
double multilinestring_getHeight(const MultiLineString& s) { OGREnvelope e = box(s.get()); return e.MaxY - e.MinY; }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::getWidth() const
double multilinestring_getWidth(const MultiLineString& s) { OGREnvelope e = box(s.get()); return e.MaxX - e.MinX; }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::getMinSafeLength() const
double multilinestring_getMinSafeLength(const MultiLineString& s) { OGREnvelope e = box(s.get()); return (e.MaxX - e.MinX) + (e.MaxY - e.MinY); }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::isEmpty() const
bool multilinestring_empty(const MultiLineString& s) { return s.get()->IsEmpty(); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::getDimMinX() const
double cell_getDimMinX(const Cell& s) { OGREnvelope e = box(s.get()); return e.MinX; }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::getDimMaxX() const
double cell_getDimMaxX(const Cell& s) { OGREnvelope e = box(s.get()); return e.MaxX; }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::getDimMinY() const
double cell_getDimMinY(const Cell& s) { OGREnvelope e = box(s.get()); return e.MinY; }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::getDimMaxY() const
double cell_getDimMaxY(const Cell& s) { OGREnvelope e = box(s.get()); return e.MaxY; }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::getHeight() const
double cell_getHeight(const Cell& s) { OGREnvelope e = box(s.get()); return e.MaxY - e.MinY; }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::getWidth() const
double cell_getWidth(const Cell& s) { OGREnvelope e = box(s.get()); return e.MaxX - e.MinX; }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::getMinSafeLength() const
double cell_getMinSafeLength(const Cell& s) { OGREnvelope e = box(s.get()); return (e.MaxX - e.MinX) + (e.MaxY - e.MinY); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::isEmpty() const
bool cell_empty(const Cell& s) { return s.get()->IsEmpty(); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::getDimMinX() const
double cells_getDimMinX(const Cells& s) { OGREnvelope e = box(s.get()); return e.MinX; }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::getDimMaxX() const
double cells_getDimMaxX(const Cells& s) { OGREnvelope e = box(s.get()); return e.MaxX; }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::getDimMinY() const
double cells_getDimMinY(const Cells& s) { OGREnvelope e = box(s.get()); return e.MinY; }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::getDimMaxY() const
double cells_getDimMaxY(const Cells& s) { OGREnvelope e = box(s.get()); return e.MaxY; }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::getHeight() const
double cells_getHeight(const Cells& s) { OGREnvelope e = box(s.get()); return e.MaxY - e.MinY; }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::getWidth() const
double cells_getWidth(const Cells& s) { OGREnvelope e = box(s.get()); return e.MaxX - e.MinX; }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::getMinSafeLength() const
double cells_getMinSafeLength(const Cells& s) { OGREnvelope e = box(s.get()); return (e.MaxX - e.MinX) + (e.MaxY - e.MinY); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::isEmpty() const
bool cells_empty(const Cells& s) { return s.get()->IsEmpty(); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::distance<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
double distance_point_cells(const Point& s, const Cells& g) { return s.get()->Distance(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::disjoint<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool disjoint_point_cells(const Point& s, const Cells& g) { return s.get()->Disjoint(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::crosses<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool crosses_point_cells(const Point& s, const Cells& g) { return s.get()->Crosses(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::touches<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool touches_point_cells(const Point& s, const Cells& g) { return s.get()->Touches(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::within<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool within_point_cells(const Point& s, const Cells& g) { return s.get()->Within(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::intersects<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool intersects_point_cells(const Point& s, const Cells& g) { return s.get()->Intersects(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::distance<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
double distance_point_cell(const Point& s, const Cell& g) { return s.get()->Distance(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::disjoint<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool disjoint_point_cell(const Point& s, const Cell& g) { return s.get()->Disjoint(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::crosses<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool crosses_point_cell(const Point& s, const Cell& g) { return s.get()->Crosses(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::touches<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool touches_point_cell(const Point& s, const Cell& g) { return s.get()->Touches(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::within<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool within_point_cell(const Point& s, const Cell& g) { return s.get()->Within(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::intersects<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool intersects_point_cell(const Point& s, const Cell& g) { return s.get()->Intersects(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::distance<OGRPoint, wkbPoint>(const f2c::types::Geometry<OGRPoint, wkbPoint> &) const
double distance_point_point(const Point& s, const Point& g) { return s.get()->Distance(g.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::distance<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
double distance_point_linestring(const Point& s, const LineString& g) { return s.get()->Distance(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::distance<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
double distance_linestring_cell(const LineString& s, const Cell& g) { return s.get()->Distance(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::disjoint<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool disjoint_linestring_cell(const LineString& s, const Cell& g) { return s.get()->Disjoint(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::crosses<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool crosses_linestring_cell(const LineString& s, const Cell& g) { return s.get()->Crosses(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::touches<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool touches_linestring_cell(const LineString& s, const Cell& g) { return s.get()->Touches(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::within<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool within_linestring_cell(const LineString& s, const Cell& g) { return s.get()->Within(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::intersects<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool intersects_linestring_cell(const LineString& s, const Cell& g) { return s.get()->Intersects(g.get()); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::distance<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
double distance_cell_cells(const Cell& s, const Cells& g) { return s.get()->Distance(g.get()); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::disjoint<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool disjoint_cell_cells(const Cell& s, const Cells& g) { return s.get()->Disjoint(g.get()); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::crosses<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool crosses_cell_cells(const Cell& s, const Cells& g) { return s.get()->Crosses(g.get()); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::touches<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool touches_cell_cells(const Cell& s, const Cells& g) { return s.get()->Touches(g.get()); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::within<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool within_cell_cells(const Cell& s, const Cells& g) { return s.get()->Within(g.get()); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::intersects<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool intersects_cell_cells(const Cell& s, const Cells& g) { return s.get()->Intersects(g.get()); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::distance<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
double distance_cells_cells(const Cells& s, const Cells& g) { return s.get()->Distance(g.get()); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::disjoint<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool disjoint_cells_cells(const Cells& s, const Cells& g) { return s.get()->Disjoint(g.get()); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::crosses<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool crosses_cells_cells(const Cells& s, const Cells& g) { return s.get()->Crosses(g.get()); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::touches<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool touches_cells_cells(const Cells& s, const Cells& g) { return s.get()->Touches(g.get()); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::within<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool within_cells_cells(const Cells& s, const Cells& g) { return s.get()->Within(g.get()); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::intersects<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool intersects_cells_cells(const Cells& s, const Cells& g) { return s.get()->Intersects(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::distance<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
double distance_linestring_linestring(const LineString& s, const LineString& g) { return s.get()->Distance(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::disjoint<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
bool disjoint_linestring_linestring(const LineString& s, const LineString& g) { return s.get()->Disjoint(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::crosses<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
bool crosses_linestring_linestring(const LineString& s, const LineString& g) { return s.get()->Crosses(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::touches<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
bool touches_linestring_linestring(const LineString& s, const LineString& g) { return s.get()->Touches(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::within<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
bool within_linestring_linestring(const LineString& s, const LineString& g) { return s.get()->Within(g.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::intersects<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
bool intersects_linestring_linestring(const LineString& s, const LineString& g) { return s.get()->Intersects(g.get()); }
//= f2c::types::Geometries<f2c::types::Cell,**>::area() const
double cell_area(const Geometries<Cell, OGRPolygon, wkbPolygon, LinearRing>& s) { return s.get()->get_Area(); }
//= f2c::types::Geometries<f2c::types::Cells,**>::area() const
double cells_area(const Geometries<Cells, OGRMultiPolygon, wkbMultiPolygon, Cell>& s) { return s.get()->get_Area(); }
//= f2c::types::LineString::length() const
double linestring_length(const LineString& s) { return s.get()->get_Length(); }
//= f2c::types::MultiLineString::length() const
double multilinestring_length(const MultiLineString& s) { return s.get()->get_Length(); }
//= f2c::types::LinearRing::length() const
double linearring_length(const LinearRing& s) { return s.get()->get_Length(); }

// a result of OGR: its polygons, in order
//= f2c::types::Cells::Cells(const OGRGeometry *)
Cells cells_of(const OGRGeometry* g) {
  assume(g != nullptr);
  Cells r;
  auto t = wkbFlatten(g->getGeometryType());
  if (t == wkbPolygon) {
    r.get()->addGeometry(g);
  } else if (t == wkbMultiPolygon) {
    const OGRMultiPolygon* m = static_cast<const OGRMultiPolygon*>(g);
    for (int i = 0; i < m->getNumGeometries(); ++i) r.get()->addGeometry(m->getGeometryRef(i));
  } else if (t == wkbGeometryCollection) {
    const OGRGeometryCollection* m = static_cast<const OGRGeometryCollection*>(g);
    for (int i = 0; i < m->getNumGeometries(); ++i)
      if (wkbFlatten(m->getGeometryRef(i)->getGeometryType()) == wkbPolygon) r.get()->addGeometry(m->getGeometryRef(i));
  }
  return r;
}
//= f2c::types::Cell::Cell(const OGRGeometry *)
Cell cell_of(const OGRGeometry* g) {
  assume(g != nullptr);
  if (wkbFlatten(g->getGeometryType()) != wkbPolygon) throw std::invalid_argument("");
  Cell r;
  const OGRPolygon* p = static_cast<const OGRPolygon*>(g);
  r = Cell(*p);
  return r;
}
inline Cells take(OGRGeometry* g) { assume(g != nullptr); return Cells(g); }
inline Cell take1(OGRGeometry* g) { assume(g != nullptr); return Cell(g); }
inline MultiLineString takel(OGRGeometry* g) { assume(g != nullptr); return MultiLineString(g); }

//= f2c::types::Cells::intersection(const f2c::types::Cell &) const
Cells cells_intersection_cell(const Cells& s, const Cell& o) { return take(s.get()->Intersection(o.get())); }
//= f2c::types::Cells::intersection(const f2c::types::Cells &) const
//= f2c::types::Cells::getCellsInside(const f2c::types::Cells &) const
Cells cells_intersection_cells(const Cells& s, const Cells& o) { return take(s.get()->Intersection(o.get())); }
//= f2c::types::Cells::difference(const f2c::types::Cell &) const
Cells cells_difference_cell(const Cells& s, const Cell& o) { return take(s.get()->Difference(o.get())); }
//= f2c::types::Cells::difference(const f2c::types::Cells &) const
Cells cells_difference_cells(const Cells& s, const Cells& o) { return take(s.get()->Difference(o.get())); }
//= f2c::types::Cells::unionOp(const f2c::types::Cell &) const
Cells cells_unionOp_cell(const Cells& s, const Cell& o) { return take(s.get()->Union(o.get())); }
//= f2c::types::Cells::unionOp(const f2c::types::Cells &) const
Cells cells_unionOp_cells(const Cells& s, const Cells& o) { return take(s.get()->Union(o.get())); }
//= f2c::types::Cells::intersection(const f2c::types::Cell &, const f2c::types::Cell &)
Cells cell_intersection(const Cell& s, const Cell& o) { return take(s.get()->Intersection(o.get())); }
//= f2c::types::Cells::unionCascaded() const
Cells cells_union_cascaded(const Cells& s) { return take(s.get()->UnionCascaded()); }
//= f2c::types::Cells::convexHull() const
Cell cells_hull(const Cells& s) { return take1(s.get()->ConvexHull()); }
//= f2c::types::Cell::convexHull() const
//= f2c::types::Cell::convexHull<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &)
Cell cell_hull(const Cell& s) { return take1(s.get()->ConvexHull()); }
//= f2c::types::Cell::convexHull<OGRMultiPoint, wkbMultiPoint>(const f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint> &)
Cell points_hull(const MultiPoint& s) { return take1(s.get()->ConvexHull()); }
//= f2c::types::Cell::getLinesInside(const f2c::types::LineString &) const
MultiLineString cell_line_inside(const Cell& s, const LineString& l) { return takel(l.get()->Intersection(s.get())); }
//= f2c::types::Cell::getLinesInside(const f2c::types::MultiLineString &) const
MultiLineString cell_lines_inside(const Cell& s, const MultiLineString& l) { return takel(l.get()->Intersection(s.get())); }
//= f2c::types::Cells::getLinesInside(const f2c::types::LineString &) const
MultiLineString cells_line_inside(const Cells& s, const LineString& l) { return takel(l.get()->Intersection(s.get())); }
//= f2c::types::Cells::getLinesInside(const f2c::types::MultiLineString &) const
MultiLineString cells_lines_inside(const Cells& s, const MultiLineString& l) { return takel(l.get()->Intersection(s.get())); }
//= f2c::types::Cell::isPointIn(const f2c::types::Point &) const
bool cell_point_in(const Cell& s, const Point& p) { return p.get()->Within(s.get()); }
//= f2c::types::Cells::isPointIn(const f2c::types::Point &) const
bool cells_point_in(const Cells& s, const Point& p) { return p.get()->Within(s.get()); }
//= f2c::types::Cell::isPointInBorder(const f2c::types::Point &) const
bool cell_point_border(const Cell& s, const Point& p) { return p.get()->Touches(s.get()); }
//= f2c::types::Cells::isPointInBorder(const f2c::types::Point &) const
bool cells_point_border(const Cells& s, const Point& p) { return p.get()->Touches(s.get()); }
// flat caps and mitred joins; the sign of the side chooses the side of a single-sided buffer
inline OGRGeometry* flat(const OGRGeometry* g, double d, int side) {
  OGRGeometry* r = nullptr;
  GEOSContextHandle_t c = OGRGeometry::createGEOSContext();
  GEOSGeom in = g->exportToGEOS(c);
  if (in != nullptr) {
    GEOSBufferParams* b = GEOSBufferParams_create_r(c);
    GEOSBufferParams_setJoinStyle_r(c, b, GEOSBUF_JOIN_MITRE);
    GEOSBufferParams_setEndCapStyle_r(c, b, GEOSBUF_CAP_FLAT);
    GEOSBufferParams_setSingleSided_r(c, b, side != 0);
    r = OGRGeometryFactory::createFromGEOS(c, GEOSBufferWithParams_r(c, in, b, side < 0 ? -d : d));
  }
  return r;
}
//= f2c::types::Cells::buffer(double) const
Cells cells_buffer(const Cells& s, double d) { return take(flat(s.get(), d, 0)); }
//= f2c::types::Cells::buffer<OGRPolygon, wkbPolygon>(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &, double, int)
Cells cells_buffer_cell(const Cell& s, double d, int side) { return take(flat(s.get(), d, side)); }
//= f2c::types::Cells::buffer<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &, double, int)
Cells cells_buffer_line(const LineString& s, double d, int side) { return take(flat(s.get(), d, side)); }
//= f2c::types::Cells::buffer<OGRMultiLineString, wkbMultiLineString>(const f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString> &, double, int)
Cells cells_buffer_lines(const MultiLineString& s, double d, int side) { return take(flat(s.get(), d, side)); }
//= f2c::types::Cell::buffer(const f2c::types::Cell &, double)
Cell cell_buffer_cell(const Cell& s, double d) { return take1(flat(s.get(), d, 0)); }
//= f2c::types::Cell::buffer(const f2c::types::LineString &, double)
Cell cell_buffer_line(const LineString& s, double d) { return take1(flat(s.get(), d, 0)); }
//= f2c::types::Cell::buffer(const f2c::types::Point &, double)
Cell cell_buffer_point(const Point& s, double d) { return take1(s.get()->Buffer(d)); }
// the band of half width |d| around the border
//= f2c::types::Cell::buffer(const f2c::types::LinearRing &, double)
Cell cell_buffer_ring(const LinearRing& s, double d) {
  Cell c(s);
  double w = d < 0 ? -d : d;
  Cell out = take1(flat(c.get(), w, 0));
  Cell in = take1(flat(c.get(), -w, 0));
  Cells a;
  a.get()->addGeometry(out.get());
  Cells diff = take(a.get()->Difference(in.get()));
  if (diff.size() == 0) return Cell();
  return diff.getGeometry(0);
}
//= f2c::types::Geometry<OGRPoint, wkbPoint>::operator==(const f2c::types::Geometry<OGRPoint, wkbPoint> &) const
bool point_same(const Geometry<OGRPoint, wkbPoint>& a, const Geometry<OGRPoint, wkbPoint>& b) { return a.get()->Equals(b.get()); }
//= f2c::types::Geometry<OGRPoint, wkbPoint>::operator!=(const f2c::types::Geometry<OGRPoint, wkbPoint> &) const
bool point_other(const Geometry<OGRPoint, wkbPoint>& a, const Geometry<OGRPoint, wkbPoint>& b) { return !a.get()->Equals(b.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::operator==(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
bool linestring_same(const Geometry<OGRLineString, wkbLineString>& a, const Geometry<OGRLineString, wkbLineString>& b) { return a.get()->Equals(b.get()); }
//= f2c::types::Geometry<OGRLineString, wkbLineString>::operator!=(const f2c::types::Geometry<OGRLineString, wkbLineString> &) const
bool linestring_other(const Geometry<OGRLineString, wkbLineString>& a, const Geometry<OGRLineString, wkbLineString>& b) { return !a.get()->Equals(b.get()); }
//= f2c::types::Geometries<f2c::types::LineString,**>::simplify(double) const
LineString linestring_simple(const Geometries<LineString, OGRLineString, wkbLineString, Point>& s, double tol) {
  OGRGeometry* g = s.get()->SimplifyPreserveTopology(tol);
  LineString r(g);
  OGRGeometryFactory::destroyGeometry(g);
  return r;
}
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::operator==(const f2c::types::Geometry<OGRLinearRing, wkbLinearRing> &) const
bool linearring_same(const Geometry<OGRLinearRing, wkbLinearRing>& a, const Geometry<OGRLinearRing, wkbLinearRing>& b) { return a.get()->Equals(b.get()); }
//= f2c::types::Geometry<OGRLinearRing, wkbLinearRing>::operator!=(const f2c::types::Geometry<OGRLinearRing, wkbLinearRing> &) const
bool linearring_other(const Geometry<OGRLinearRing, wkbLinearRing>& a, const Geometry<OGRLinearRing, wkbLinearRing>& b) { return !a.get()->Equals(b.get()); }
//= f2c::types::Geometries<f2c::types::LinearRing,**>::simplify(double) const
LinearRing linearring_simple(const Geometries<LinearRing, OGRLinearRing, wkbLinearRing, Point>& s, double tol) {
  OGRGeometry* g = s.get()->SimplifyPreserveTopology(tol);
  LinearRing r(g);
  OGRGeometryFactory::destroyGeometry(g);
  return r;
}
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::operator==(const f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint> &) const
bool multipoint_same(const Geometry<OGRMultiPoint, wkbMultiPoint>& a, const Geometry<OGRMultiPoint, wkbMultiPoint>& b) { return a.get()->Equals(b.get()); }
//= f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint>::operator!=(const f2c::types::Geometry<OGRMultiPoint, wkbMultiPoint> &) const
bool multipoint_other(const Geometry<OGRMultiPoint, wkbMultiPoint>& a, const Geometry<OGRMultiPoint, wkbMultiPoint>& b) { return !a.get()->Equals(b.get()); }
//= f2c::types::Geometries<f2c::types::MultiPoint,**>::simplify(double) const
MultiPoint multipoint_simple(const Geometries<MultiPoint, OGRMultiPoint, wkbMultiPoint, Point>& s, double tol) {
  OGRGeometry* g = s.get()->SimplifyPreserveTopology(tol);
  MultiPoint r(g);
  OGRGeometryFactory::destroyGeometry(g);
  return r;
}
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::operator==(const f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString> &) const
bool multilinestring_same(const Geometry<OGRMultiLineString, wkbMultiLineString>& a, const Geometry<OGRMultiLineString, wkbMultiLineString>& b) { return a.get()->Equals(b.get()); }
//= f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString>::operator!=(const f2c::types::Geometry<OGRMultiLineString, wkbMultiLineString> &) const
bool multilinestring_other(const Geometry<OGRMultiLineString, wkbMultiLineString>& a, const Geometry<OGRMultiLineString, wkbMultiLineString>& b) { return !a.get()->Equals(b.get()); }
//= f2c::types::Geometries<f2c::types::MultiLineString,**>::simplify(double) const
MultiLineString multilinestring_simple(const Geometries<MultiLineString, OGRMultiLineString, wkbMultiLineString, LineString>& s, double tol) {
  OGRGeometry* g = s.get()->SimplifyPreserveTopology(tol);
  MultiLineString r(g);
  OGRGeometryFactory::destroyGeometry(g);
  return r;
}
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::operator==(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool cell_same(const Geometry<OGRPolygon, wkbPolygon>& a, const Geometry<OGRPolygon, wkbPolygon>& b) { return a.get()->Equals(b.get()); }
//= f2c::types::Geometry<OGRPolygon, wkbPolygon>::operator!=(const f2c::types::Geometry<OGRPolygon, wkbPolygon> &) const
bool cell_other(const Geometry<OGRPolygon, wkbPolygon>& a, const Geometry<OGRPolygon, wkbPolygon>& b) { return !a.get()->Equals(b.get()); }
//= f2c::types::Geometries<f2c::types::Cell,**>::simplify(double) const
Cell cell_simple(const Geometries<Cell, OGRPolygon, wkbPolygon, LinearRing>& s, double tol) {
  OGRGeometry* g = s.get()->SimplifyPreserveTopology(tol);
  Cell r(g);
  OGRGeometryFactory::destroyGeometry(g);
  return r;
}
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::operator==(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool cells_same(const Geometry<OGRMultiPolygon, wkbMultiPolygon>& a, const Geometry<OGRMultiPolygon, wkbMultiPolygon>& b) { return a.get()->Equals(b.get()); }
//= f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon>::operator!=(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &) const
bool cells_other(const Geometry<OGRMultiPolygon, wkbMultiPolygon>& a, const Geometry<OGRMultiPolygon, wkbMultiPolygon>& b) { return !a.get()->Equals(b.get()); }
//= f2c::types::Geometries<f2c::types::Cells,**>::simplify(double) const
Cells cells_simple(const Geometries<Cells, OGRMultiPolygon, wkbMultiPolygon, Cell>& s, double tol) { return take(s.get()->SimplifyPreserveTopology(tol)); }
//= f2c::types::Geometries<f2c::types::LinearRing,**>::area() const
double ring_area(const Geometries<LinearRing, OGRLinearRing, wkbLinearRing, Point>& s) { return s.get()->get_Area(); }
//= f2c::types::Cell::convexHull<OGRMultiPolygon, wkbMultiPolygon>(const f2c::types::Geometry<OGRMultiPolygon, wkbMultiPolygon> &)
Cell cells_hull2(const Cells& s) { return take1(s.get()->ConvexHull()); }
//= f2c::types::Cell::convexHull<OGRLineString, wkbLineString>(const f2c::types::Geometry<OGRLineString, wkbLineString> &)
Cell line_hull(const LineString& s) { return take1(s.get()->ConvexHull()); }
//= f2c::types::Cells::getCellWherePoint(**) const
Cell cell_where(const Cells& s, const Point& p) {
  for (size_t i = 0; i < n_members(s.get()); ++i) {
    const OGRPolygon* c = poly_of(s.get(), i);
    if (p.get()->Touches(c) || p.get()->Within(c)) return raw_cell(c);
  }
  return Cell();
}
}
