// What can be read from a swath and from lists of swaths.
#pragma once
#include "raw.h"
namespace spec {
struct SwathView { int id; LineString path; double width; bool dir; SwathType type; };
inline SwathView view(const Swath& s) { return {s.getId(), s.getPath(), s.getWidth(), s.getCreationDir(), s.getType()}; }
inline LineString turned(const LineString& p) {
  LineString r;
  size_t n = n_points(p.get());
  for (size_t i = 0; i < n; ++i) r.get()->addPoint(p.get()->getX(n - 1 - i), p.get()->getY(n - 1 - i), p.get()->getZ(n - 1 - i));
  return r;
}
inline LineString shifted(const LineString& p, const Point& d) {
  LineString r;
  for (size_t i = 0; i < n_points(p.get()); ++i) r.get()->addPoint(p.get()->getX(i) + px(d), p.get()->getY(i) + py(d), p.get()->getZ(i) + pz(d));
  return r;
}
inline SwathView turned(SwathView v) { v.path = turned(v.path); v.dir = !v.dir; return v; }
inline void positive(double w) { if (0 >= w) throw std::invalid_argument(""); }
}
