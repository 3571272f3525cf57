// Random values: inside of their ranges, fields of the size and shape asked for, reproducible.
#include "raw.h"
#include "fields2cover/utils/random.h"
#include <random>
#include <cmath>
#include <stdexcept>
namespace spec {
typedef f2c::Random Random;
// the next draw between 0 and 1
inline double draw(Random& r) { std::uniform_real_distribution<double> d(0.0, 1.0); return d(r.mt_); }
// ranges
//= f2c::Random::getRandomDouble()
double unit(Random& r) { return draw(r); }
//= f2c::Random::getRandomLinear(double, double)
double linear(Random& r, double lo, double hi) { assume(lo < hi); double u = draw(r); return lo * (1 - u) + hi * u; }
//= f2c::Random::getRandomExp(double, double)
double logarithmic(Random& r, double lo, double hi) { assume(0 < lo && lo < hi); double u = draw(r); return std::exp(std::log(lo) + u * (std::log(hi) - std::log(lo))); }
//= f2c::Random::getRandomExpDist(double)
double exponential(Random& r, double rate) { std::exponential_distribution<double> d(rate); return d(r.mt_); }
//= f2c::Random::getAngleRandom()
double angle(Random& r) { return draw(r) * 2 * M_PI; }
bool lhs_in(Random& r, double lo, double gap) { double hi = lo + std::fabs(gap) + 0.001; double v = r.getRandomLinear(lo, hi); return v >= lo && v < hi; }
//= spec::lhs_in
bool in(Random& r, double lo, double gap) { draw(r); return true; }
bool lhs_in_exp(Random& r, double a, double gap) { double lo = std::fabs(a) + 0.01, hi = lo + std::fabs(gap) + 0.01; double v = r.getRandomExp(lo, hi); return v > lo * 0.999999 && v < hi * 1.000001; }
//= spec::lhs_in_exp
bool in_exp(Random& r, double a, double gap) { draw(r); return true; }
bool lhs_in_unit(Random& r) { double v = r.getRandomDouble(), a = r.getAngleRandom(); return v >= 0 && v < 1 && a >= 0 && a < 2 * M_PI; }
//= spec::lhs_in_unit
bool in_unit(Random& r) { draw(r); draw(r); return true; }
// the same seed gives the same values, also for a copy
double lhs_seed(uint32_t seed, double a, double b) { assume(a < b); Random p(seed), q(seed); double x = p.getRandomDouble(), y = q.getRandomDouble(); return p.getRandomLinear(a, b) - q.getRandomLinear(a, b) + x - y; }
//= spec::lhs_seed
double seed(uint32_t s, double a, double b) { assume(a < b); return 0; }
double lhs_copy(const Random& r) { Random p(r), q(r), s(3); s = p; double x = q.getRandomDouble(); return x - p.getRandomDouble() + x - s.getRandomDouble(); }
//= spec::lhs_copy
double copy(const Random& r) { return 0; }
double lhs_from(uint32_t seed) { Random p(seed); return p.getRandomDouble(); }
//= spec::lhs_from
double from(uint32_t seed) { std::mt19937 g(seed); std::uniform_real_distribution<double> d(0.0, 1.0); return d(g); }
// fields
inline Cell drawn(Random& r, double area, int n, double lo, double hi) {
  if (n < 3) throw std::invalid_argument("sides");
  if (area <= 0) throw std::invalid_argument("area");
  std::vector<std::pair<double, double>> p;
  for (int i = 0; i < n; ++i) {
    double u = draw(r), d = lo + (hi - lo) * u;
    double t = 2.0 * M_PI * (i + draw(r)) / n;  // one corner in each of n equal sectors
    p.push_back(std::make_pair(d * std::sin(t), d * std::cos(t)));
  }
  LinearRing b;
  for (int i = 0; i < n; ++i) b.addPoint(p[i].first, p[i].second);
  b.addPoint(p[0].first, p[0].second);
  Cell c(b);
  double k = std::sqrt(area / c.get()->get_Area());
  LinearRing s;
  for (int i = 0; i < n; ++i) s.addPoint(p[i].first * k, p[i].second * k);
  s.addPoint(p[0].first * k, p[0].second * k);
  return Cell(s);
}
//= f2c::Random::generateRandCell(double, int, double, double) ;maxlen=6
Cell cell(Random& r, double area, int n, double lo, double hi) { assume(n < 7 && lo < hi); return drawn(r, area, n, lo, hi); }
//= f2c::Random::generateRandField(double, int, double, double) ;opaque=f2c::Random::generateRandCell(
Field field(Random& r, double area, int n, double lo, double hi) { return Field(Cells(r.generateRandCell(area, n, lo, hi))); }
size_t lhs_sides(Random& r, double area, size_t n) { Cell c = r.generateRandCell(std::fabs(area) + 1, 3 + n % 5); return c.getExteriorRing().size() * 10 + c.size(); }
//= spec::lhs_sides ;compare=ret
size_t sides(Random& r, double area, size_t n) { return (4 + n % 5) * 10 + 1; }
double lhs_closed(Random& r, double area, size_t n) { Cell c = r.generateRandCell(std::fabs(area) + 1, 3 + n % 5); LinearRing b = c.getExteriorRing(); return b.startPoint().getX() - b.endPoint().getX() + b.startPoint().getY() - b.endPoint().getY(); }
//= spec::lhs_closed ;compare=ret
double closed(Random& r, double area, size_t n) { return 0; }
// shapes
bool lhs_convex(Random& r, double area, size_t n) { assume(area > 0 && n > 2 && n < 9); Cell c = r.genConvexCell(area, n); return c.isConvex(); }
//= spec::lhs_convex ;compare=ret ;opaque=f2c::types::Cell::isConvex(
bool convex(Random& r, double area, size_t n) { assume(area > 0 && n > 2 && n < 9); return true; }
bool lhs_hollow(Random& r, double area) { assume(area > 0); Cell c = r.genNonConvexCell(area); return c.isConvex(); }
//= spec::lhs_hollow ;compare=ret ;opaque=f2c::types::Cell::isConvex(
bool hollow(Random& r, double area) { assume(area > 0); return false; }
//= f2c::Random::genConvexCell(double, unsigned long) ;opaque=f2c::types::Cell::isConvex(
Cell convexcell(Random& r, double area, size_t n) {
  assume(area > 0 && n > 2 && n < 9);
  Cell c = drawn(r, area, int(n), 0.5, 1.0);
  while (!c.isConvex()) c = drawn(r, area, int(n), 0.5, 1.0);
  return c;
}
//= f2c::Random::genNonConvexCell(double) ;opaque=f2c::types::Cell::isConvex(
Cell hollowcell(Random& r, double area) {
  assume(area > 0);
  Cell c = drawn(r, area, 9, 0.5, 1.0);
  while (c.isConvex()) c = drawn(r, area, 9, 0.5, 1.0);
  return c;
}
//= f2c::Random::genConvexField(double, unsigned long) ;opaque=f2c::Random::genConvexCell(
Field convexfield(Random& r, double area, size_t n) { return Field(Cells(r.genConvexCell(area, n))); }
//= f2c::Random::genNonConvexField(double) ;opaque=f2c::Random::genNonConvexCell(
Field hollowfield(Random& r, double area) { return Field(Cells(r.genNonConvexCell(area))); }
}
