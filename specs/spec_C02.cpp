// A clone shares nothing with its original; what is put together from geometries holds copies of them.
#include "swath.h"
namespace spec {
Point lhs_point_kept(Point& s, double v) { Point c = s.clone(); s.setX(v); return c; }
//= spec::lhs_point_kept
Point point_kept(Point& s, double v) { return s; }
Point lhs_point_alone(Point& s, double v) { Point c = s.clone(); c.setX(v); return s; }
//= spec::lhs_point_alone
Point point_alone(Point& s, double v) { return s; }
LineString lhs_line_kept(LineString& s, const Point& p) { LineString c = s.clone(); s.addPoint(p); return c; }
//= spec::lhs_line_kept
LineString line_kept(LineString& s, const Point& p) { return s; }
LineString lhs_line_alone(LineString& s, const Point& p) { LineString c = s.clone(); c.addPoint(p); return s; }
//= spec::lhs_line_alone
LineString line_alone(LineString& s, const Point& p) { return s; }
LineString lhs_line_scale_kept(LineString& s, double f) { LineString c = s.clone(); s *= f; return c; }
//= spec::lhs_line_scale_kept
LineString line_scale_kept(LineString& s, double f) { return s; }
LineString lhs_line_scale_alone(LineString& s, double f) { LineString c = s.clone(); c *= f; return s; }
//= spec::lhs_line_scale_alone
LineString line_scale_alone(LineString& s, double f) { return s; }
LineString lhs_line_turn_kept(LineString& s) { LineString c = s.clone(); s.reversePoints(); return c; }
//= spec::lhs_line_turn_kept
LineString line_turn_kept(LineString& s) { return s; }
LineString lhs_line_turn_alone(LineString& s) { LineString c = s.clone(); c.reversePoints(); return s; }
//= spec::lhs_line_turn_alone
LineString line_turn_alone(LineString& s) { return s; }
LineString lhs_line_set_kept(LineString& s, size_t i, const Point& p) { assume(i < s.size()); LineString c = s.clone(); s.setGeometry(i, p); return c; }
//= spec::lhs_line_set_kept
LineString line_set_kept(LineString& s, size_t i, const Point& p) { assume(i < s.size()); return s; }
LineString lhs_line_set_alone(LineString& s, size_t i, const Point& p) { assume(i < s.size()); LineString c = s.clone(); c.setGeometry(i, p); return s; }
//= spec::lhs_line_set_alone
LineString line_set_alone(LineString& s, size_t i, const Point& p) { assume(i < s.size()); return s; }
LinearRing lhs_ring_kept(LinearRing& s, const Point& p) { LinearRing c = s.clone(); s.addPoint(p); return c; }
//= spec::lhs_ring_kept
LinearRing ring_kept(LinearRing& s, const Point& p) { return s; }
LinearRing lhs_ring_alone(LinearRing& s, const Point& p) { LinearRing c = s.clone(); c.addPoint(p); return s; }
//= spec::lhs_ring_alone
LinearRing ring_alone(LinearRing& s, const Point& p) { return s; }
LinearRing lhs_ring_set_kept(LinearRing& s, size_t i, const Point& p) { assume(i < s.size()); LinearRing c = s.clone(); s.setGeometry(i, p); return c; }
//= spec::lhs_ring_set_kept
LinearRing ring_set_kept(LinearRing& s, size_t i, const Point& p) { assume(i < s.size()); return s; }
LinearRing lhs_ring_set_alone(LinearRing& s, size_t i, const Point& p) { assume(i < s.size()); LinearRing c = s.clone(); c.setGeometry(i, p); return s; }
//= spec::lhs_ring_set_alone
LinearRing ring_set_alone(LinearRing& s, size_t i, const Point& p) { assume(i < s.size()); return s; }
MultiPoint lhs_points_kept(MultiPoint& s, const Point& p) { MultiPoint c = s.clone(); s.addPoint(p); return c; }
//= spec::lhs_points_kept
MultiPoint points_kept(MultiPoint& s, const Point& p) { return s; }
MultiPoint lhs_points_alone(MultiPoint& s, const Point& p) { MultiPoint c = s.clone(); c.addPoint(p); return s; }
//= spec::lhs_points_alone
MultiPoint points_alone(MultiPoint& s, const Point& p) { return s; }
MultiPoint lhs_points_scale_kept(MultiPoint& s, double f) { MultiPoint c = s.clone(); s *= f; return c; }
//= spec::lhs_points_scale_kept
MultiPoint points_scale_kept(MultiPoint& s, double f) { return s; }
MultiPoint lhs_points_scale_alone(MultiPoint& s, double f) { MultiPoint c = s.clone(); c *= f; return s; }
//= spec::lhs_points_scale_alone
MultiPoint points_scale_alone(MultiPoint& s, double f) { return s; }
MultiLineString lhs_lines_kept(MultiLineString& s, const LineString& l) { MultiLineString c = s.clone(); s.addGeometry(l); return c; }
//= spec::lhs_lines_kept
MultiLineString lines_kept(MultiLineString& s, const LineString& l) { return s; }
MultiLineString lhs_lines_alone(MultiLineString& s, const LineString& l) { MultiLineString c = s.clone(); c.addGeometry(l); return s; }
//= spec::lhs_lines_alone
MultiLineString lines_alone(MultiLineString& s, const LineString& l) { return s; }
MultiLineString lhs_lines_scale_kept(MultiLineString& s, double f) { MultiLineString c = s.clone(); s *= f; return c; }
//= spec::lhs_lines_scale_kept
MultiLineString lines_scale_kept(MultiLineString& s, double f) { return s; }
MultiLineString lhs_lines_scale_alone(MultiLineString& s, double f) { MultiLineString c = s.clone(); c *= f; return s; }
//= spec::lhs_lines_scale_alone
MultiLineString lines_scale_alone(MultiLineString& s, double f) { return s; }
Cell lhs_cell_kept(Cell& s, const LinearRing& r) { Cell c = s.clone(); s.addRing(r); return c; }
//= spec::lhs_cell_kept
Cell cell_kept(Cell& s, const LinearRing& r) { return s; }
Cell lhs_cell_alone(Cell& s, const LinearRing& r) { Cell c = s.clone(); c.addRing(r); return s; }
//= spec::lhs_cell_alone
Cell cell_alone(Cell& s, const LinearRing& r) { return s; }
Cell lhs_cell_scale_kept(Cell& s, double f) { Cell c = s.clone(); s *= f; return c; }
//= spec::lhs_cell_scale_kept
Cell cell_scale_kept(Cell& s, double f) { return s; }
Cell lhs_cell_scale_alone(Cell& s, double f) { Cell c = s.clone(); c *= f; return s; }
//= spec::lhs_cell_scale_alone
Cell cell_scale_alone(Cell& s, double f) { return s; }
Cells lhs_cells_kept(Cells& s, const Cell& q) { Cells c = s.clone(); s.addGeometry(q); return c; }
//= spec::lhs_cells_kept
Cells cells_kept(Cells& s, const Cell& q) { return s; }
Cells lhs_cells_alone(Cells& s, const Cell& q) { Cells c = s.clone(); c.addGeometry(q); return s; }
//= spec::lhs_cells_alone
Cells cells_alone(Cells& s, const Cell& q) { return s; }
Cells lhs_cells_scale_kept(Cells& s, double f) { Cells c = s.clone(); s *= f; return c; }
//= spec::lhs_cells_scale_kept
Cells cells_scale_kept(Cells& s, double f) { return s; }
Cells lhs_cells_scale_alone(Cells& s, double f) { Cells c = s.clone(); c *= f; return s; }
//= spec::lhs_cells_scale_alone
Cells cells_scale_alone(Cells& s, double f) { return s; }
Swath lhs_swath_kept(Swath& s) { Swath c = s.clone(); s.reverse(); return c; }
//= spec::lhs_swath_kept
Swath swath_kept(Swath& s) { return s; }
Swath lhs_swath_alone(Swath& s) { Swath c = s.clone(); c.reverse(); return s; }
//= spec::lhs_swath_alone
Swath swath_alone(Swath& s) { return s; }
Swath lhs_swath_move_kept(Swath& s, const Point& d) { Swath c = s.clone(); s.moveTo(d); return c; }
//= spec::lhs_swath_move_kept
Swath swath_move_kept(Swath& s, const Point& d) { return s; }
Swath lhs_swath_move_alone(Swath& s, const Point& d) { Swath c = s.clone(); c.moveTo(d); return s; }
//= spec::lhs_swath_move_alone
Swath swath_move_alone(Swath& s, const Point& d) { return s; }
Swath lhs_swath_path_kept(Swath& s, const LineString& l, double w) { assume(w > 0); Swath c = s.clone(); s.setPath(l); s.setWidth(w); s.setId(77); return c; }
//= spec::lhs_swath_path_kept
Swath swath_path_kept(Swath& s, const LineString& l, double w) { assume(w > 0); return s; }
Swath lhs_swath_path_alone(Swath& s, const LineString& l, double w) { assume(w > 0); Swath c = s.clone(); c.setPath(l); c.setWidth(w); c.setId(77); return s; }
//= spec::lhs_swath_path_alone
Swath swath_path_alone(Swath& s, const LineString& l, double w) { assume(w > 0); return s; }
Swaths lhs_swaths_kept(Swaths& s, size_t i) { assume(i < s.size()); Swaths c = s.clone(); s[i].reverse(); return c; }
//= spec::lhs_swaths_kept
Swaths swaths_kept(Swaths& s, size_t i) { assume(i < s.size()); return s; }
Swaths lhs_swaths_alone(Swaths& s, size_t i) { assume(i < s.size()); Swaths c = s.clone(); c[i].reverse(); return s; }
//= spec::lhs_swaths_alone
Swaths swaths_alone(Swaths& s, size_t i) { assume(i < s.size()); return s; }
Swaths lhs_swaths_move_kept(Swaths& s, const Point& d) { Swaths c = s.clone(); s.moveTo(d); return c; }
//= spec::lhs_swaths_move_kept
Swaths swaths_move_kept(Swaths& s, const Point& d) { return s; }
Swaths lhs_swaths_move_alone(Swaths& s, const Point& d) { Swaths c = s.clone(); c.moveTo(d); return s; }
//= spec::lhs_swaths_move_alone
Swaths swaths_move_alone(Swaths& s, const Point& d) { return s; }
Swaths lhs_swaths_add_kept(Swaths& s, const Swath& t) { Swaths c = s.clone(); s.push_back(t); return c; }
//= spec::lhs_swaths_add_kept
Swaths swaths_add_kept(Swaths& s, const Swath& t) { return s; }
Swaths lhs_swaths_add_alone(Swaths& s, const Swath& t) { Swaths c = s.clone(); c.push_back(t); return s; }
//= spec::lhs_swaths_add_alone
Swaths swaths_add_alone(Swaths& s, const Swath& t) { return s; }
SwathsByCells lhs_by_kept(SwathsByCells& s, size_t i, size_t j) { assume(i < s.size()); assume(j < s[i].size()); SwathsByCells c = s.clone(); s[i][j].reverse(); return c; }
//= spec::lhs_by_kept
SwathsByCells by_kept(SwathsByCells& s, size_t i, size_t j) { assume(i < s.size()); assume(j < s[i].size()); return s; }
SwathsByCells lhs_by_alone(SwathsByCells& s, size_t i, size_t j) { assume(i < s.size()); assume(j < s[i].size()); SwathsByCells c = s.clone(); c[i][j].reverse(); return s; }
//= spec::lhs_by_alone
SwathsByCells by_alone(SwathsByCells& s, size_t i, size_t j) { assume(i < s.size()); assume(j < s[i].size()); return s; }
Strip lhs_strip_kept(Strip& s, const LinearRing& r) { Strip c = s.clone(); s.getCell().addRing(r); return c; }
//= spec::lhs_strip_kept
Strip strip_kept(Strip& s, const LinearRing& r) { return s; }
Strip lhs_strip_alone(Strip& s, const LinearRing& r) { Strip c = s.clone(); c.getCell().addRing(r); return s; }
//= spec::lhs_strip_alone
Strip strip_alone(Strip& s, const LinearRing& r) { return s; }
Strip lhs_strip_name_kept(Strip& s, const Cell& q, const std::string& n) { Strip c = s.clone(); s.setCell(q); s.setName(n); return c; }
//= spec::lhs_strip_name_kept
Strip strip_name_kept(Strip& s, const Cell& q, const std::string& n) { return s; }
Strip lhs_strip_name_alone(Strip& s, const Cell& q, const std::string& n) { Strip c = s.clone(); c.setCell(q); c.setName(n); return s; }
//= spec::lhs_strip_name_alone
Strip strip_name_alone(Strip& s, const Cell& q, const std::string& n) { return s; }
Field lhs_field_kept(Field& s, const Cell& q) { Field c = s.clone(); s.getField().addGeometry(q); return c; }
//= spec::lhs_field_kept
Field field_kept(Field& s, const Cell& q) { return s; }
Field lhs_field_alone(Field& s, const Cell& q) { Field c = s.clone(); c.getField().addGeometry(q); return s; }
//= spec::lhs_field_alone
Field field_alone(Field& s, const Cell& q) { return s; }
Field lhs_field_ref_kept(Field& s, double v) { Field c = s.clone(); s.getRefPoint().setX(v); return c; }
//= spec::lhs_field_ref_kept
Field field_ref_kept(Field& s, double v) { return s; }
Field lhs_field_ref_alone(Field& s, double v) { Field c = s.clone(); c.getRefPoint().setX(v); return s; }
//= spec::lhs_field_ref_alone
Field field_ref_alone(Field& s, double v) { return s; }
Field lhs_field_names_kept(Field& s, const std::string& n) { Field c = s.clone(); s.setId(n); s.setCRS(n); s.setPrevCRS(n); return c; }
//= spec::lhs_field_names_kept
Field field_names_kept(Field& s, const std::string& n) { return s; }
Field lhs_field_names_alone(Field& s, const std::string& n) { Field c = s.clone(); c.setId(n); c.setCRS(n); c.setPrevCRS(n); return s; }
//= spec::lhs_field_names_alone
Field field_names_alone(Field& s, const std::string& n) { return s; }
Route lhs_route_kept(Route& s, size_t i, size_t j) { assume(i < s.sizeVectorSwaths()); assume(j < s.getSwaths(i).size()); Route c = s.clone(); s.getSwaths(i)[j].reverse(); return c; }
//= spec::lhs_route_kept
Route route_kept(Route& s, size_t i, size_t j) { assume(i < s.sizeVectorSwaths()); assume(j < s.getSwaths(i).size()); return s; }
Route lhs_route_alone(Route& s, size_t i, size_t j) { assume(i < s.sizeVectorSwaths()); assume(j < s.getSwaths(i).size()); Route c = s.clone(); c.getSwaths(i)[j].reverse(); return s; }
//= spec::lhs_route_alone
Route route_alone(Route& s, size_t i, size_t j) { assume(i < s.sizeVectorSwaths()); assume(j < s.getSwaths(i).size()); return s; }
Route lhs_route_conn_kept(Route& s, size_t i, const Point& p) { assume(i < s.sizeConnections()); Route c = s.clone(); s.getConnection(i).addPoint(p); return c; }
//= spec::lhs_route_conn_kept
Route route_conn_kept(Route& s, size_t i, const Point& p) { assume(i < s.sizeConnections()); return s; }
Route lhs_route_conn_alone(Route& s, size_t i, const Point& p) { assume(i < s.sizeConnections()); Route c = s.clone(); c.getConnection(i).addPoint(p); return s; }
//= spec::lhs_route_conn_alone
Route route_conn_alone(Route& s, size_t i, const Point& p) { assume(i < s.sizeConnections()); return s; }
LineString lhs_line_made(Point& p) { LineString c; c.addPoint(p); p.setX(5); return c; }
//= spec::lhs_line_made
LineString line_made(Point& p) { LineString c; c.addPoint(p); return c; }
MultiPoint lhs_points_made(Point& p) { MultiPoint c; c.addPoint(p); p.setX(5); return c; }
//= spec::lhs_points_made
MultiPoint points_made(Point& p) { MultiPoint c; c.addPoint(p); return c; }
MultiLineString lhs_lines_made(LineString& g, const Point& p) { MultiLineString c; c.addGeometry(g); g.addPoint(p); return c; }
//= spec::lhs_lines_made
MultiLineString lines_made(LineString& g, const Point& p) { MultiLineString c; c.addGeometry(g); return c; }
Cell lhs_cell_made(LinearRing& g, const Point& p) { Cell c; c.addRing(g); g.addPoint(p); return c; }
//= spec::lhs_cell_made
Cell cell_made(LinearRing& g, const Point& p) { Cell c; c.addRing(g); return c; }
Cell lhs_cell_from(LinearRing& g, const Point& p) { Cell c(g); g.addPoint(p); return c; }
//= spec::lhs_cell_from
Cell cell_from(LinearRing& g, const Point& p) { Cell c(g); return c; }
Cells lhs_cells_made(Cell& g, const LinearRing& p) { Cells c; c.addGeometry(g); g.addRing(p); return c; }
//= spec::lhs_cells_made
Cells cells_made(Cell& g, const LinearRing& p) { Cells c; c.addGeometry(g); return c; }
Cells lhs_cells_from(Cell& g, const LinearRing& p) { Cells c(g); g.addRing(p); return c; }
//= spec::lhs_cells_from
Cells cells_from(Cell& g, const LinearRing& p) { Cells c(g); return c; }
Swaths lhs_swaths_made(MultiLineString& g, double f, double w) { assume(w > 0); Swaths c; c.append(g, w, SwathType::MAINLAND); g *= f; return c; }
//= spec::lhs_swaths_made
Swaths swaths_made(MultiLineString& g, double f, double w) { assume(w > 0); Swaths c; c.append(g, w, SwathType::MAINLAND); return c; }
Field lhs_field_made(Cells& g, const std::string& n, const Cell& p) { Field c(g, n); g.addGeometry(p); return c; }
//= spec::lhs_field_made
Field field_made(Cells& g, const std::string& n, const Cell& p) { Field c(g, n); return c; }
Point lhs_point_made(Point& g, double v) { Point c(g); g.setX(v); return c; }
//= spec::lhs_point_made
Point point_made(Point& g, double v) { Point c(g); return c; }
LineString lhs_line_got(LineString& s, size_t i, double v) { assume(i < s.size()); Point g = s.getGeometry(i); g.setX(v); return s; }
//= spec::lhs_line_got
LineString line_got(LineString& s, size_t i, double v) { assume(i < s.size()); return s; }
LinearRing lhs_ring_got(LinearRing& s, size_t i, double v) { assume(i < s.size()); Point g = s.getGeometry(i); g.setX(v); return s; }
//= spec::lhs_ring_got
LinearRing ring_got(LinearRing& s, size_t i, double v) { assume(i < s.size()); return s; }
MultiPoint lhs_points_got(MultiPoint& s, size_t i, double v) { assume(i < s.size()); Point g = s.getGeometry(i); g.setX(v); return s; }
//= spec::lhs_points_got
MultiPoint points_got(MultiPoint& s, size_t i, double v) { assume(i < s.size()); return s; }
MultiLineString lhs_lines_got(MultiLineString& s, size_t i, const Point& p) { assume(i < s.size()); LineString g = s.getGeometry(i); g.addPoint(p); return s; }
//= spec::lhs_lines_got
MultiLineString lines_got(MultiLineString& s, size_t i, const Point& p) { assume(i < s.size()); return s; }
Cell lhs_cell_got(Cell& s, size_t i, const Point& p) { assume(i < s.size()); LinearRing g = s.getGeometry(i); g.addPoint(p); return s; }
//= spec::lhs_cell_got
Cell cell_got(Cell& s, size_t i, const Point& p) { assume(i < s.size()); return s; }
Cells lhs_cells_got(Cells& s, size_t i, const LinearRing& p) { assume(i < s.size()); Cell g = s.getGeometry(i); g.addRing(p); return s; }
//= spec::lhs_cells_got
Cells cells_got(Cells& s, size_t i, const LinearRing& p) { assume(i < s.size()); return s; }
LineString lhs_sum_line_in(LineString& s, const Point& d) { LineString c = s + d; c.addPoint(d); return s; }
//= spec::lhs_sum_line_in
LineString sum_line_in(LineString& s, const Point& d) { return s; }
LinearRing lhs_sum_ring_in(LinearRing& s, const Point& d) { LinearRing c = s + d; c.addPoint(d); return s; }
//= spec::lhs_sum_ring_in
LinearRing sum_ring_in(LinearRing& s, const Point& d) { return s; }
MultiPoint lhs_sum_points_in(MultiPoint& s, const Point& d) { MultiPoint c = s + d; c.addPoint(d); return s; }
//= spec::lhs_sum_points_in
MultiPoint sum_points_in(MultiPoint& s, const Point& d) { return s; }
Cell lhs_sum_cell_in(Cell& s, const Point& d, double f) { Cell c = s + d; c *= f; return s; }
//= spec::lhs_sum_cell_in
Cell sum_cell_in(Cell& s, const Point& d, double f) { return s; }
Cells lhs_sum_cells_in(Cells& s, const Point& d, double f) { Cells c = s + d; c *= f; return s; }
//= spec::lhs_sum_cells_in
Cells sum_cells_in(Cells& s, const Point& d, double f) { return s; }
Point lhs_sum_point_in(Point& s, const Point& d) { Point c = s + d; c.setX(1); return s; }
//= spec::lhs_sum_point_in
Point sum_point_in(Point& s, const Point& d) { return s; }
Point lhs_times_point_in(Point& s, double d) { Point c = s * d; c.setX(1); return s; }
//= spec::lhs_times_point_in
Point times_point_in(Point& s, double d) { return s; }
LineString lhs_minus_line_in(LineString& s, const Point& d) { LineString c = s - d; c.addPoint(d); return s; }
//= spec::lhs_minus_line_in
LineString minus_line_in(LineString& s, const Point& d) { return s; }
Cells lhs_minus_cells_in(Cells& s, const Point& d, double f) { Cells c = s - d; c *= f; return s; }
//= spec::lhs_minus_cells_in
Cells minus_cells_in(Cells& s, const Point& d, double f) { return s; }
LineString lhs_turn_line_in(LineString& s, const Point& d, double a) { LineString c = d.rotateFromPoint(a, s); c.addPoint(d); return s; }
//= spec::lhs_turn_line_in
LineString turn_line_in(LineString& s, const Point& d, double a) { return s; }
Field lhs_abs_field_in(Field& s, double f) { Cells c = s.getCellsAbsPosition(); c *= f; return s; }
//= spec::lhs_abs_field_in
Field abs_field_in(Field& s, double f) { return s; }
Swaths lhs_order_in(Swaths& s, uint32_t v) { f2c::rp::BoustrophedonOrder o; Swaths c = o.genSortedSwaths(s, v); for (size_t i = 0; i < c.size(); ++i) c[i].reverse(); return s; }
//= spec::lhs_order_in
Swaths order_in(Swaths& s, uint32_t v) { return s; }
Swaths lhs_order_snake_in(Swaths& s, uint32_t v) { f2c::rp::SnakeOrder o; Swaths c = o.genSortedSwaths(s, v); for (size_t i = 0; i < c.size(); ++i) c[i].reverse(); return s; }
//= spec::lhs_order_snake_in
Swaths order_snake_in(Swaths& s, uint32_t v) { return s; }
Point lhs_tr_Point(Point& s, const std::string& a, const std::string& b) { F2CPoint c = f2c::Transform::transform(s, a, b); c.setX(1); return s; }
//= spec::lhs_tr_Point ;opaque=*Transform::createSptRef(*
Point tr_Point(Point& s, const std::string& a, const std::string& b) { return s; }
LineString lhs_tr_LineString(LineString& s, const std::string& a, const std::string& b) { F2CLineString c = f2c::Transform::transform(s, a, b); c *= 2; return s; }
//= spec::lhs_tr_LineString ;opaque=*Transform::createSptRef(*
LineString tr_LineString(LineString& s, const std::string& a, const std::string& b) { return s; }
Cell lhs_tr_Cell(Cell& s, const std::string& a, const std::string& b) { F2CCell c = f2c::Transform::transform(s, a, b); c *= 2; return s; }
//= spec::lhs_tr_Cell ;opaque=*Transform::createSptRef(*
Cell tr_Cell(Cell& s, const std::string& a, const std::string& b) { return s; }
Cells lhs_tr_Cells(Cells& s, const std::string& a, const std::string& b) { F2CCells c = f2c::Transform::transform(s, a, b); c *= 2; return s; }
//= spec::lhs_tr_Cells ;opaque=*Transform::createSptRef(*
Cells tr_Cells(Cells& s, const std::string& a, const std::string& b) { return s; }
Swath lhs_tr_Swath(Swath& s, const std::string& a, const std::string& b) { F2CSwath c = f2c::Transform::transformSwath(s, a, b); c.reverse(); return s; }
//= spec::lhs_tr_Swath ;opaque=*Transform::createSptRef(*
Swath tr_Swath(Swath& s, const std::string& a, const std::string& b) { return s; }
Swaths lhs_tr_Swaths(Swaths& s, const std::string& a, const std::string& b) { F2CSwaths c = f2c::Transform::transformSwaths(s, a, b); for (size_t i = 0; i < c.size(); ++i) c[i].reverse(); return s; }
//= spec::lhs_tr_Swaths ;opaque=*Transform::createSptRef(*
Swaths tr_Swaths(Swaths& s, const std::string& a, const std::string& b) { return s; }
Strip lhs_tr_Strip(Strip& s, const std::string& a, const std::string& b) { F2CStrip c = f2c::Transform::transformStrip(s, a, b); c.getCell() *= 2; return s; }
//= spec::lhs_tr_Strip ;opaque=*Transform::createSptRef(*
Strip tr_Strip(Strip& s, const std::string& a, const std::string& b) { return s; }
Path lhs_tr_Path(Path& s, const std::string& a, const std::string& b) { F2CPath c = f2c::Transform::transformPath(s, a, b); c.moveTo(F2CPoint(1, 2)); return s; }
//= spec::lhs_tr_Path ;opaque=*Transform::createSptRef(*
Path tr_Path(Path& s, const std::string& a, const std::string& b) { return s; }
Swath lhs_trf_Swath(Swath& s, const Field& f, const std::string& b) { F2CSwath c = f2c::Transform::transformSwathWithFieldRef(s, f, b); c.reverse(); return s; }
//= spec::lhs_trf_Swath ;opaque=*Transform::createSptRef(*
Swath trf_Swath(Swath& s, const Field& f, const std::string& b) { return s; }
Field lhs_trff_Swath(Swath& s, const Field& f, const std::string& b) { F2CSwath c = f2c::Transform::transformSwathWithFieldRef(s, f, b); c.reverse(); return f; }
//= spec::lhs_trff_Swath ;opaque=*Transform::createSptRef(*
Field trff_Swath(Swath& s, const Field& f, const std::string& b) { return f; }
Swaths lhs_trf_Swaths(Swaths& s, const Field& f, const std::string& b) { F2CSwaths c = f2c::Transform::transformSwathsWithFieldRef(s, f, b); for (size_t i = 0; i < c.size(); ++i) c[i].reverse(); return s; }
//= spec::lhs_trf_Swaths ;opaque=*Transform::createSptRef(*
Swaths trf_Swaths(Swaths& s, const Field& f, const std::string& b) { return s; }
Field lhs_trff_Swaths(Swaths& s, const Field& f, const std::string& b) { F2CSwaths c = f2c::Transform::transformSwathsWithFieldRef(s, f, b); for (size_t i = 0; i < c.size(); ++i) c[i].reverse(); return f; }
//= spec::lhs_trff_Swaths ;opaque=*Transform::createSptRef(*
Field trff_Swaths(Swaths& s, const Field& f, const std::string& b) { return f; }
MultiPoint lhs_trf_MultiPoint(MultiPoint& s, const Field& f, const std::string& b) { F2CMultiPoint c = f2c::Transform::transformMultiPointWithFieldRef(s, f, b); c *= 2; return s; }
//= spec::lhs_trf_MultiPoint ;opaque=*Transform::createSptRef(*
MultiPoint trf_MultiPoint(MultiPoint& s, const Field& f, const std::string& b) { return s; }
Field lhs_trff_MultiPoint(MultiPoint& s, const Field& f, const std::string& b) { F2CMultiPoint c = f2c::Transform::transformMultiPointWithFieldRef(s, f, b); c *= 2; return f; }
//= spec::lhs_trff_MultiPoint ;opaque=*Transform::createSptRef(*
Field trff_MultiPoint(MultiPoint& s, const Field& f, const std::string& b) { return f; }
Route lhs_trf_Route(Route& s, const Field& f, const std::string& b) { F2CRoute c = f2c::Transform::transformRouteWithFieldRef(s, f, b); for (size_t i = 0; i < c.sizeConnections(); ++i) c.getConnection(i) *= 2; return s; }
//= spec::lhs_trf_Route ;opaque=*Transform::createSptRef(*
Route trf_Route(Route& s, const Field& f, const std::string& b) { return s; }
Field lhs_trff_Route(Route& s, const Field& f, const std::string& b) { F2CRoute c = f2c::Transform::transformRouteWithFieldRef(s, f, b); for (size_t i = 0; i < c.sizeConnections(); ++i) c.getConnection(i) *= 2; return f; }
//= spec::lhs_trff_Route ;opaque=*Transform::createSptRef(*
Field trff_Route(Route& s, const Field& f, const std::string& b) { return f; }
Path lhs_trf_Path(Path& s, const Field& f, const std::string& b) { F2CPath c = f2c::Transform::transformPathWithFieldRef(s, f, b); c.moveTo(F2CPoint(1, 2)); return s; }
//= spec::lhs_trf_Path ;opaque=*Transform::createSptRef(*
Path trf_Path(Path& s, const Field& f, const std::string& b) { return s; }
Field lhs_trff_Path(Path& s, const Field& f, const std::string& b) { F2CPath c = f2c::Transform::transformPathWithFieldRef(s, f, b); c.moveTo(F2CPoint(1, 2)); return f; }
//= spec::lhs_trff_Path ;opaque=*Transform::createSptRef(*
Field trff_Path(Path& s, const Field& f, const std::string& b) { return f; }
Field lhs_tr_Field(Field& s, const std::string& b) { Field c = s.clone(); f2c::Transform::transform(c, b); return s; }
//= spec::lhs_tr_Field ;opaque=*Transform::createSptRef(*
Field tr_Field(Field& s, const std::string& b) { Field k = s.clone(); Field c = s.clone(); f2c::Transform::transform(c, b); return k; }
Field lhs_tr_prev(Field& s) { Field c = s.clone(); f2c::Transform::transformToPrevCRS(c); return s; }
//= spec::lhs_tr_prev ;opaque=*Transform::createSptRef(*
Field tr_prev(Field& s) { Field k = s.clone(); Field c = s.clone(); f2c::Transform::transformToPrevCRS(c); return k; }
// values: assigned copies stand alone
Path lhs_path_value(Path& s, const PathState& x) { Path c = s; c.addState(x); c.moveTo(F2CPoint(1, 2)); return s; }
//= spec::lhs_path_value
Path path_value(Path& s, const PathState& x) { return s; }
Path lhs_path_kept(Path& s, const PathState& x) { Path c; c = s; s.moveTo(F2CPoint(1, 2)); s.addState(x); return c; }
//= spec::lhs_path_kept
Path path_kept(Path& s, const PathState& x) { return s; }
Path lhs_path_joined(Path& s, Path& t) { Path c = s; c += t; t.moveTo(F2CPoint(1, 2)); s.moveTo(F2CPoint(2, 3)); return c; }
//= spec::lhs_path_joined
Path path_joined(Path& s, Path& t) { Path c = s; c += t; return c; }
Path lhs_path_swath(Path& s, Swath& w, double v) { Path c; c.appendSwath(w, v); w.moveTo(F2CPoint(1, 2)); return c; }
//= spec::lhs_path_swath
Path path_swath(Path& s, Swath& w, double v) { Path c; c.appendSwath(w, v); return c; }
Point lhs_state_value(PathState& s, double v) { PathState c = s; s.point.setX(v); return c.point; }
//= spec::lhs_state_value
Point state_value(PathState& s, double v) { return s.point; }
Point lhs_point_assigned(Point& s, double v) { Point c; c = s; s.setX(v); return c; }
//= spec::lhs_point_assigned
Point point_assigned(Point& s, double v) { return s; }
Point lhs_field_copied(Field& s, double v) { Field c = s; c.getRefPoint().setX(v); return s.getRefPoint(); }
//= spec::lhs_field_copied
Point field_copied(Field& s, double v) { return s.getRefPoint(); }
Point lhs_start_got(LineString& s, double v) { Point c = s.startPoint(); c.setX(v); return s.startPoint(); }
//= spec::lhs_start_got
Point start_got(LineString& s, double v) { return s.startPoint(); }
}
