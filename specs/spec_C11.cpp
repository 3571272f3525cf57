// Orders in which the swaths of a cell are covered.
#include "swath.h"
#include <algorithm>
namespace spec {
inline std::vector<Swath> all(const Swaths& s) { std::vector<Swath> v; for (auto it = s.begin(); it != s.end(); ++it) v.push_back(*it); return v; }
// swaths sorted, started from the chosen corner
inline std::vector<Swath> started(const Swaths& s, uint32_t variant) {
  assume(s.size() > 0);
  Swaths w = s.clone();
  w.sort();
  if (variant & 1) w.reverse();
  if (variant & 2) w[0].reverse();
  return all(w);
}
// neighbours in the order are covered in opposite directions
inline std::vector<Swath> alternated(const std::vector<Swath>& v) {
  Swaths w(v);
  w.reverseDirOddSwaths();
  return all(w);
}
std::vector<Swath> lhs_boustrophedon(const f2c::rp::BoustrophedonOrder& o, const Swaths& s, uint32_t variant) { return all(o.genSortedSwaths(s, variant)); }
//= spec::lhs_boustrophedon ;opaque=*Swaths::reverseDirOddSwaths(* ;maxlen=8
std::vector<Swath> boustrophedon(const f2c::rp::BoustrophedonOrder& o, const Swaths& s, uint32_t variant) { return alternated(started(s, variant)); }
std::vector<Swath> lhs_snake(const f2c::rp::SnakeOrder& o, const Swaths& s, uint32_t variant) { return all(o.genSortedSwaths(s, variant)); }
//= spec::lhs_snake ;opaque=*Swaths::reverseDirOddSwaths(* ;maxlen=8
std::vector<Swath> snake(const f2c::rp::SnakeOrder& o, const Swaths& s, uint32_t variant) {
  std::vector<Swath> v = started(s, variant), r;
  size_t n = v.size(), up = (n + 1) / 2;
  for (size_t i = 0; i < n; ++i) r.push_back(i < up ? v[2 * i] : v[2 * (n - 1 - i) + 1]);
  return alternated(r);
}
}
namespace spec {
// blocks of at most `size` swaths, each covered from its borders to its middle
inline std::vector<Swath> in_blocks(const std::vector<Swath>& v, size_t size) {
  std::vector<Swath> r;
  for (size_t i = 0; i < v.size(); ++i) {
    size_t o = i / size * size, left = v.size() - o;
    size_t m = left < size ? left : size, k = i - o;
    r.push_back((k + o) % 2 == 0 ? v[o + k / 2] : v[o + m - 1 - k / 2]);
  }
  return r;
}
std::vector<Swath> lhs_spiral(size_t size, const Swaths& s, uint32_t variant) {
  f2c::rp::SpiralOrder o;
  o.setSpiralSize(size);
  return all(o.genSortedSwaths(s, variant));
}
//= spec::lhs_spiral ;opaque=*Swaths::reverseDirOddSwaths(* ;maxlen=8
std::vector<Swath> spiral(size_t size, const Swaths& s, uint32_t variant) { return alternated(in_blocks(started(s, variant), size < 1 ? 1 : size)); }
std::vector<Swath> lhs_spiral_ctor(size_t size, const Swaths& s, uint32_t variant) { return all(f2c::rp::SpiralOrder(size).genSortedSwaths(s, variant)); }
//= spec::lhs_spiral_ctor ;opaque=*Swaths::reverseDirOddSwaths(* ;maxlen=8
std::vector<Swath> spiral_ctor(size_t size, const Swaths& s, uint32_t variant) { assume(size < 1000); return alternated(in_blocks(started(s, variant), size < 2 ? 2 : size)); }
// an order given by the user
inline void valid_order(const std::vector<size_t>& p, size_t n) {
  for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) if (p[i] == p[j]) throw std::invalid_argument("");
  if (p.size() != n) throw std::length_error("");
  for (size_t i = 0; i < p.size(); ++i) if (p[i] >= n) throw std::invalid_argument("");
}
std::vector<Swath> lhs_custom(const std::vector<size_t>& p, const Swaths& s, uint32_t variant) { return all(f2c::rp::CustomOrder(p).genSortedSwaths(s, variant)); }
//= spec::lhs_custom ;opaque=*Swaths::reverseDirOddSwaths(* ;maxlen=8
std::vector<Swath> custom(const std::vector<size_t>& p, const Swaths& s, uint32_t variant) {
  std::vector<Swath> v = started(s, variant), r;
  valid_order(p, v.size());
  for (size_t i = 0; i < p.size(); ++i) r.push_back(v[p[i]]);
  return alternated(r);
}
// an order that differs from the identity in one place, or in its length
inline std::vector<size_t> nearly(size_t n, size_t k, size_t x, uint32_t extra) {
  std::vector<size_t> p;
  size_t m = n + extra % 2;
  for (size_t i = 0; i < m; ++i) p.push_back(i == k ? x : i);
  return p;
}
std::vector<Swath> lhs_nearly(const Swaths& s, size_t k, size_t x, uint32_t extra) {
  return all(f2c::rp::CustomOrder(nearly(s.size(), k, x, extra)).genSortedSwaths(s, 0));
}
//= spec::lhs_nearly ;opaque=*Swaths::reverseDirOddSwaths(* ;maxlen=8
std::vector<Swath> nearly_ref(const Swaths& s, size_t k, size_t x, uint32_t extra) {
  std::vector<size_t> p = nearly(s.size(), k, x, extra);
  std::vector<Swath> v = started(s, 0), r;
  valid_order(p, v.size());
  for (size_t i = 0; i < p.size(); ++i) r.push_back(v[p[i]]);
  return alternated(r);
}
template <class O> size_t none(const O& o, uint32_t variant) { return o.genSortedSwaths(Swaths(), variant).size(); }
size_t lhs_none_b(const f2c::rp::BoustrophedonOrder& o, uint32_t v) { return none(o, v); }
size_t lhs_none_s(const f2c::rp::SnakeOrder& o, uint32_t v) { return none(o, v); }
size_t lhs_none_p(const f2c::rp::SpiralOrder& o, uint32_t v) { return none(o, v); }
size_t lhs_none_c(const f2c::rp::CustomOrder& o, uint32_t v) { return none(o, v); }
//= spec::lhs_none_b
size_t none_b(const f2c::rp::BoustrophedonOrder& o, uint32_t v) { return 0; }
//= spec::lhs_none_s
size_t none_s(const f2c::rp::SnakeOrder& o, uint32_t v) { return 0; }
//= spec::lhs_none_p
size_t none_p(const f2c::rp::SpiralOrder& o, uint32_t v) { return 0; }
//= spec::lhs_none_c
size_t none_c(const f2c::rp::CustomOrder& o, uint32_t v) { return 0; }
std::vector<Swath> lhs_reorder(f2c::rp::CustomOrder& o, const std::vector<size_t>& p, const Swaths& s, uint32_t variant) { o.setCustomOrder(p); return all(o.genSortedSwaths(s, variant)); }
//= spec::lhs_reorder
std::vector<Swath> reorder(f2c::rp::CustomOrder& o, const std::vector<size_t>& p, const Swaths& s, uint32_t variant) { return all(f2c::rp::CustomOrder(p).genSortedSwaths(s, variant)); }
}
