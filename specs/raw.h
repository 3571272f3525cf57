// Plain readings of the library's containers through OGR.
#pragma once
#include "spec.h"
namespace spec {
inline void in_range(size_t i, size_t n) { if (i >= n) throw std::out_of_range(""); }
inline size_t n_points(const OGRLineString* s) { return s->IsEmpty() ? 0 : s->getNumPoints(); }
inline Point raw_point(const OGRLineString* s, size_t i) { return Point(s->getX(i), s->getY(i), s->getZ(i)); }
inline LineString raw_line(const OGRLineString* s) {
  LineString r;
  for (size_t i = 0; i < n_points(s); ++i) r.get()->addPoint(s->getX(i), s->getY(i), s->getZ(i));
  return r;
}
inline LinearRing raw_ring(const OGRLinearRing* s) {
  LinearRing r;
  for (size_t i = 0; i < n_points(s); ++i) r.get()->addPoint(s->getX(i), s->getY(i), s->getZ(i));
  return r;
}
inline size_t n_rings(const OGRPolygon* p) { return p->IsEmpty() ? 0 : 1 + p->getNumInteriorRings(); }
inline const OGRLinearRing* ring_of(const OGRPolygon* p, size_t i) { return i == 0 ? p->getExteriorRing() : p->getInteriorRing(i - 1); }
inline Cell raw_cell(const OGRPolygon* p) {
  Cell r;
  for (size_t i = 0; i < n_rings(p); ++i) {
    LinearRing g = raw_ring(ring_of(p, i));
    r.get()->addRing(g.get());
  }
  return r;
}
inline size_t n_members(const OGRGeometryCollection* s) { return s->IsEmpty() ? 0 : s->getNumGeometries(); }
inline const OGRPoint* point_of(const OGRMultiPoint* s, size_t i) { return static_cast<const OGRPoint*>(s->getGeometryRef(i)); }
inline const OGRLineString* line_of(const OGRMultiLineString* s, size_t i) { return static_cast<const OGRLineString*>(s->getGeometryRef(i)); }
inline const OGRPolygon* poly_of(const OGRMultiPolygon* s, size_t i) { return static_cast<const OGRPolygon*>(s->getGeometryRef(i)); }
}
