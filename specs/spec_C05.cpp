// Scaling in place reaches every coordinate of every element, whatever the nesting.
#include "raw.h"
namespace spec {
inline void scaled(OGRLineString* d, const OGRLineString* s, double b) {
  for (size_t i = 0; i < n_points(s); ++i) d->addPoint(s->getX(i) * b, s->getY(i) * b, s->getZ(i) * b);
}
//= f2c::types::LineString::operator*=(double)
void line_scale(LineString& s, double b) { LineString r; scaled(r.get(), s.get(), b); s = r; }
//= f2c::types::LinearRing::operator*=(double)
void ring_scale(LinearRing& s, double b) { LinearRing r; scaled(r.get(), s.get(), b); s = r; }
//= f2c::types::MultiPoint::operator*=(double)
void points_scale(MultiPoint& s, double b) {
  MultiPoint r;
  for (size_t i = 0; i < n_members(s.get()); ++i) {
    const OGRPoint* p = point_of(s.get(), i);
    OGRPoint q(p->getX() * b, p->getY() * b, p->getZ() * b);
    r.get()->addGeometry(&q);
  }
  s = r;
}
//= f2c::types::MultiLineString::operator*=(double)
void lines_scale(MultiLineString& s, double b) {
  MultiLineString r;
  for (size_t i = 0; i < n_members(s.get()); ++i) { LineString l; scaled(l.get(), line_of(s.get(), i), b); r.get()->addGeometry(l.get()); }
  s = r;
}
inline Cell cell_scaled(const OGRPolygon* p, double b) {
  Cell r;
  for (size_t i = 0; i < n_rings(p); ++i) { LinearRing l; scaled(l.get(), ring_of(p, i), b); r.get()->addRing(l.get()); }
  return r;
}
//= f2c::types::Cell::operator*=(double)
void cell_scale(Cell& s, double b) { s = cell_scaled(s.get(), b); }
//= f2c::types::Cells::operator*=(double)
void cells_scale(Cells& s, double b) {
  Cells r;
  for (size_t i = 0; i < n_members(s.get()); ++i) { Cell c = cell_scaled(poly_of(s.get(), i), b); r.get()->addGeometry(c.get()); }
  s = r;
}
}
namespace spec {
// the iterators the loops run on: position, step, comparison, and writing the element back
typedef Geometries<LineString, OGRLineString, wkbLineString, Point> LineBase;
typedef Geometries<LinearRing, OGRLinearRing, wkbLinearRing, Point> RingBase;
typedef Geometries<MultiPoint, OGRMultiPoint, wkbMultiPoint, Point> PointsBase;
typedef Geometries<MultiLineString, OGRMultiLineString, wkbMultiLineString, LineString> LinesBase;
typedef Geometries<Cell, OGRPolygon, wkbPolygon, LinearRing> CellBase;
typedef Geometries<Cells, OGRMultiPolygon, wkbMultiPolygon, Cell> CellsBase;

template <class S, class B> S written(S& s, size_t i, double b) {
  assume(i < s.size());
  typename B::Iterator it(&s, i);
  *it *= b;
  it.~Iterator();
  return s;
}
template <class S, class B> S stepped(S& s, size_t i, double b) {
  assume(i + 1 < s.size());
  typename B::Iterator it(&s, i);
  *it *= b;
  ++it;
  *it *= b;
  it.~Iterator();
  return s;
}
template <class S> S scaled_at(S& s, size_t i, double b) {
  assume(i < s.size());
  Point p = s.getGeometry(i);
  p *= b;
  s.setGeometry(i, p);
  return s;
}
template <class S> S scaled_both(S& s, size_t i, double b) { assume(i + 1 < s.size()); scaled_at(s, i, b); scaled_at(s, i + 1, b); return s; }
template <class B> size_t span(B& s) { size_t n = 0; for (auto i = s.begin(), e = s.end(); i != e; ++i) ++n; return n; }

//= spec::line_written
LineString line_scaled_at(LineString& s, size_t i, double b) { return scaled_at(s, i, b); }
LineString line_written(LineString& s, size_t i, double b) { return written<LineString, LineBase>(s, i, b); }
//= spec::ring_written
LinearRing ring_scaled_at(LinearRing& s, size_t i, double b) { return scaled_at(s, i, b); }
LinearRing ring_written(LinearRing& s, size_t i, double b) { return written<LinearRing, RingBase>(s, i, b); }
//= spec::points_written
MultiPoint points_scaled_at(MultiPoint& s, size_t i, double b) { return scaled_at(s, i, b); }
MultiPoint points_written(MultiPoint& s, size_t i, double b) { return written<MultiPoint, PointsBase>(s, i, b); }
//= spec::line_stepped
LineString line_scaled_both(LineString& s, size_t i, double b) { return scaled_both(s, i, b); }
LineString line_stepped(LineString& s, size_t i, double b) { return stepped<LineString, LineBase>(s, i, b); }
//= spec::points_stepped
MultiPoint points_scaled_both(MultiPoint& s, size_t i, double b) { return scaled_both(s, i, b); }
MultiPoint points_stepped(MultiPoint& s, size_t i, double b) { return stepped<MultiPoint, PointsBase>(s, i, b); }
//= spec::ring_stepped
LinearRing ring_scaled_both(LinearRing& s, size_t i, double b) { return scaled_both(s, i, b); }
LinearRing ring_stepped(LinearRing& s, size_t i, double b) { return stepped<LinearRing, RingBase>(s, i, b); }
}
namespace spec {
// positions of the iterators
//= spec::line_begin_pos
//= spec::line_cbegin_pos
bool line_is_zero(LineString& s, int k) { return k != 0; }
bool line_begin_pos(LineString& s, int k) { LineString::Iterator it(&s, k); return s.begin() != it; }
bool line_cbegin_pos(LineString& s, int k) { const LineString& c = s; LineString::ConstIterator it(&c, k); return c.begin() != it; }
//= spec::line_end_pos
//= spec::line_cend_pos
bool line_is_size(LineString& s, int k) { assume(k >= 0); return size_t(k) != s.size(); }
bool line_end_pos(LineString& s, int k) { LineString::Iterator it(&s, k); return s.end() != it; }
bool line_cend_pos(LineString& s, int k) { const LineString& c = s; LineString::ConstIterator it(&c, k); return c.end() != it; }
//= spec::line_cread
//= spec::line_read
Point line_element(LineString& s, size_t i) { assume(i < s.size()); return s.getGeometry(i); }
Point line_cread(LineString& s, size_t i) { assume(i < s.size()); LineString::ConstIterator it(&s, i); return *it; }
Point line_read(LineString& s, size_t i) { assume(i < s.size()); LineString::Iterator it(&s, i); return *it; }
//= spec::line_cnext
//= spec::line_next
bool line_succ(LineString& s, int i, int k) { return i + 1 != k; }
bool line_cnext(LineString& s, int i, int k) { LineString::ConstIterator it(&s, i); LineString::ConstIterator e(&s, k); ++it; return it != e; }
bool line_next(LineString& s, int i, int k) { LineString::Iterator it(&s, i); LineString::Iterator e(&s, k); ++it; return it != e; }
//= spec::line_cdiffer
//= spec::line_differ
bool line_other(LineString& s, int i, int j) { return i != j; }
bool line_cdiffer(LineString& s, int i, int j) { LineString::ConstIterator a(&s, i); LineString::ConstIterator b(&s, j); return a != b; }
bool line_differ(LineString& s, int i, int j) { LineString::Iterator a(&s, i); LineString::Iterator b(&s, j); return a != b; }
//= spec::ring_begin_pos
//= spec::ring_cbegin_pos
bool ring_is_zero(LinearRing& s, int k) { return k != 0; }
bool ring_begin_pos(LinearRing& s, int k) { LinearRing::Iterator it(&s, k); return s.begin() != it; }
bool ring_cbegin_pos(LinearRing& s, int k) { const LinearRing& c = s; LinearRing::ConstIterator it(&c, k); return c.begin() != it; }
//= spec::ring_end_pos
//= spec::ring_cend_pos
bool ring_is_size(LinearRing& s, int k) { assume(k >= 0); return size_t(k) != s.size(); }
bool ring_end_pos(LinearRing& s, int k) { LinearRing::Iterator it(&s, k); return s.end() != it; }
bool ring_cend_pos(LinearRing& s, int k) { const LinearRing& c = s; LinearRing::ConstIterator it(&c, k); return c.end() != it; }
//= spec::ring_cread
//= spec::ring_read
Point ring_element(LinearRing& s, size_t i) { assume(i < s.size()); return s.getGeometry(i); }
Point ring_cread(LinearRing& s, size_t i) { assume(i < s.size()); LinearRing::ConstIterator it(&s, i); return *it; }
Point ring_read(LinearRing& s, size_t i) { assume(i < s.size()); LinearRing::Iterator it(&s, i); return *it; }
//= spec::ring_cnext
//= spec::ring_next
bool ring_succ(LinearRing& s, int i, int k) { return i + 1 != k; }
bool ring_cnext(LinearRing& s, int i, int k) { LinearRing::ConstIterator it(&s, i); LinearRing::ConstIterator e(&s, k); ++it; return it != e; }
bool ring_next(LinearRing& s, int i, int k) { LinearRing::Iterator it(&s, i); LinearRing::Iterator e(&s, k); ++it; return it != e; }
//= spec::ring_cdiffer
//= spec::ring_differ
bool ring_other(LinearRing& s, int i, int j) { return i != j; }
bool ring_cdiffer(LinearRing& s, int i, int j) { LinearRing::ConstIterator a(&s, i); LinearRing::ConstIterator b(&s, j); return a != b; }
bool ring_differ(LinearRing& s, int i, int j) { LinearRing::Iterator a(&s, i); LinearRing::Iterator b(&s, j); return a != b; }
//= spec::points_begin_pos
//= spec::points_cbegin_pos
bool points_is_zero(MultiPoint& s, int k) { return k != 0; }
bool points_begin_pos(MultiPoint& s, int k) { MultiPoint::Iterator it(&s, k); return s.begin() != it; }
bool points_cbegin_pos(MultiPoint& s, int k) { const MultiPoint& c = s; MultiPoint::ConstIterator it(&c, k); return c.begin() != it; }
//= spec::points_end_pos
//= spec::points_cend_pos
bool points_is_size(MultiPoint& s, int k) { assume(k >= 0); return size_t(k) != s.size(); }
bool points_end_pos(MultiPoint& s, int k) { MultiPoint::Iterator it(&s, k); return s.end() != it; }
bool points_cend_pos(MultiPoint& s, int k) { const MultiPoint& c = s; MultiPoint::ConstIterator it(&c, k); return c.end() != it; }
//= spec::points_cread
//= spec::points_read
Point points_element(MultiPoint& s, size_t i) { assume(i < s.size()); return s.getGeometry(i); }
Point points_cread(MultiPoint& s, size_t i) { assume(i < s.size()); MultiPoint::ConstIterator it(&s, i); return *it; }
Point points_read(MultiPoint& s, size_t i) { assume(i < s.size()); MultiPoint::Iterator it(&s, i); return *it; }
//= spec::points_cnext
//= spec::points_next
bool points_succ(MultiPoint& s, int i, int k) { return i + 1 != k; }
bool points_cnext(MultiPoint& s, int i, int k) { MultiPoint::ConstIterator it(&s, i); MultiPoint::ConstIterator e(&s, k); ++it; return it != e; }
bool points_next(MultiPoint& s, int i, int k) { MultiPoint::Iterator it(&s, i); MultiPoint::Iterator e(&s, k); ++it; return it != e; }
//= spec::points_cdiffer
//= spec::points_differ
bool points_other(MultiPoint& s, int i, int j) { return i != j; }
bool points_cdiffer(MultiPoint& s, int i, int j) { MultiPoint::ConstIterator a(&s, i); MultiPoint::ConstIterator b(&s, j); return a != b; }
bool points_differ(MultiPoint& s, int i, int j) { MultiPoint::Iterator a(&s, i); MultiPoint::Iterator b(&s, j); return a != b; }
//= spec::lines_begin_pos
//= spec::lines_cbegin_pos
bool lines_is_zero(MultiLineString& s, int k) { return k != 0; }
bool lines_begin_pos(MultiLineString& s, int k) { MultiLineString::Iterator it(&s, k); return s.begin() != it; }
bool lines_cbegin_pos(MultiLineString& s, int k) { const MultiLineString& c = s; MultiLineString::ConstIterator it(&c, k); return c.begin() != it; }
//= spec::lines_end_pos
//= spec::lines_cend_pos
bool lines_is_size(MultiLineString& s, int k) { assume(k >= 0); return size_t(k) != s.size(); }
bool lines_end_pos(MultiLineString& s, int k) { MultiLineString::Iterator it(&s, k); return s.end() != it; }
bool lines_cend_pos(MultiLineString& s, int k) { const MultiLineString& c = s; MultiLineString::ConstIterator it(&c, k); return c.end() != it; }
//= spec::lines_cread
//= spec::lines_read
LineString lines_element(MultiLineString& s, size_t i) { assume(i < s.size()); return s.getGeometry(i); }
LineString lines_cread(MultiLineString& s, size_t i) { assume(i < s.size()); MultiLineString::ConstIterator it(&s, i); return *it; }
LineString lines_read(MultiLineString& s, size_t i) { assume(i < s.size()); MultiLineString::Iterator it(&s, i); return *it; }
//= spec::lines_cnext
//= spec::lines_next
bool lines_succ(MultiLineString& s, int i, int k) { return i + 1 != k; }
bool lines_cnext(MultiLineString& s, int i, int k) { MultiLineString::ConstIterator it(&s, i); MultiLineString::ConstIterator e(&s, k); ++it; return it != e; }
bool lines_next(MultiLineString& s, int i, int k) { MultiLineString::Iterator it(&s, i); MultiLineString::Iterator e(&s, k); ++it; return it != e; }
//= spec::lines_cdiffer
//= spec::lines_differ
bool lines_other(MultiLineString& s, int i, int j) { return i != j; }
bool lines_cdiffer(MultiLineString& s, int i, int j) { MultiLineString::ConstIterator a(&s, i); MultiLineString::ConstIterator b(&s, j); return a != b; }
bool lines_differ(MultiLineString& s, int i, int j) { MultiLineString::Iterator a(&s, i); MultiLineString::Iterator b(&s, j); return a != b; }
//= spec::cell_begin_pos
//= spec::cell_cbegin_pos
bool cell_is_zero(Cell& s, int k) { return k != 0; }
bool cell_begin_pos(Cell& s, int k) { Cell::Iterator it(&s, k); return s.begin() != it; }
bool cell_cbegin_pos(Cell& s, int k) { const Cell& c = s; Cell::ConstIterator it(&c, k); return c.begin() != it; }
//= spec::cell_end_pos
//= spec::cell_cend_pos
bool cell_is_size(Cell& s, int k) { assume(k >= 0); return size_t(k) != s.size(); }
bool cell_end_pos(Cell& s, int k) { Cell::Iterator it(&s, k); return s.end() != it; }
bool cell_cend_pos(Cell& s, int k) { const Cell& c = s; Cell::ConstIterator it(&c, k); return c.end() != it; }
//= spec::cell_cread
//= spec::cell_read
LinearRing cell_element(Cell& s, size_t i) { assume(i < s.size()); return s.getGeometry(i); }
LinearRing cell_cread(Cell& s, size_t i) { assume(i < s.size()); Cell::ConstIterator it(&s, i); return *it; }
LinearRing cell_read(Cell& s, size_t i) { assume(i < s.size()); Cell::Iterator it(&s, i); return *it; }
//= spec::cell_cnext
//= spec::cell_next
bool cell_succ(Cell& s, int i, int k) { return i + 1 != k; }
bool cell_cnext(Cell& s, int i, int k) { Cell::ConstIterator it(&s, i); Cell::ConstIterator e(&s, k); ++it; return it != e; }
bool cell_next(Cell& s, int i, int k) { Cell::Iterator it(&s, i); Cell::Iterator e(&s, k); ++it; return it != e; }
//= spec::cell_cdiffer
//= spec::cell_differ
bool cell_other(Cell& s, int i, int j) { return i != j; }
bool cell_cdiffer(Cell& s, int i, int j) { Cell::ConstIterator a(&s, i); Cell::ConstIterator b(&s, j); return a != b; }
bool cell_differ(Cell& s, int i, int j) { Cell::Iterator a(&s, i); Cell::Iterator b(&s, j); return a != b; }
//= spec::cells_begin_pos
//= spec::cells_cbegin_pos
bool cells_is_zero(Cells& s, int k) { return k != 0; }
bool cells_begin_pos(Cells& s, int k) { Cells::Iterator it(&s, k); return s.begin() != it; }
bool cells_cbegin_pos(Cells& s, int k) { const Cells& c = s; Cells::ConstIterator it(&c, k); return c.begin() != it; }
//= spec::cells_end_pos
//= spec::cells_cend_pos
bool cells_is_size(Cells& s, int k) { assume(k >= 0); return size_t(k) != s.size(); }
bool cells_end_pos(Cells& s, int k) { Cells::Iterator it(&s, k); return s.end() != it; }
bool cells_cend_pos(Cells& s, int k) { const Cells& c = s; Cells::ConstIterator it(&c, k); return c.end() != it; }
//= spec::cells_cread
//= spec::cells_read
Cell cells_element(Cells& s, size_t i) { assume(i < s.size()); return s.getGeometry(i); }
Cell cells_cread(Cells& s, size_t i) { assume(i < s.size()); Cells::ConstIterator it(&s, i); return *it; }
Cell cells_read(Cells& s, size_t i) { assume(i < s.size()); Cells::Iterator it(&s, i); return *it; }
//= spec::cells_cnext
//= spec::cells_next
bool cells_succ(Cells& s, int i, int k) { return i + 1 != k; }
bool cells_cnext(Cells& s, int i, int k) { Cells::ConstIterator it(&s, i); Cells::ConstIterator e(&s, k); ++it; return it != e; }
bool cells_next(Cells& s, int i, int k) { Cells::Iterator it(&s, i); Cells::Iterator e(&s, k); ++it; return it != e; }
//= spec::cells_cdiffer
//= spec::cells_differ
bool cells_other(Cells& s, int i, int j) { return i != j; }
bool cells_cdiffer(Cells& s, int i, int j) { Cells::ConstIterator a(&s, i); Cells::ConstIterator b(&s, j); return a != b; }
bool cells_differ(Cells& s, int i, int j) { Cells::Iterator a(&s, i); Cells::Iterator b(&s, j); return a != b; }
}
