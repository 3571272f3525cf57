// Lists of swaths, and lists of lists.
#include "swath.h"
#include <algorithm>
namespace spec {
//= f2c::types::Swaths::size() const
size_t size(const Swaths& s) { size_t n = 0; for (auto it = s.begin(); it != s.end(); ++it) ++n; return n; }
Swath lhs_index(const Swaths& s, int i) { assume(i >= 0 && i < s.size()); return s[i]; }
//= spec::lhs_index
Swath index(const Swaths& s, int i) { assume(i >= 0 && i < s.size()); return *(s.begin() + i); }
Swath lhs_index_m(Swaths& s, int i) { assume(i >= 0 && i < s.size()); return s[i]; }
//= spec::lhs_index_m
Swath index_m(Swaths& s, int i) { assume(i >= 0 && i < s.size()); return *(s.begin() + i); }
//= f2c::types::Swaths::at(unsigned long) const
const Swath& at(const Swaths& s, size_t i) { in_range(i, s.size()); return *(s.begin() + i); }
//= f2c::types::Swaths::at(unsigned long)
Swath& at_m(Swaths& s, size_t i) { in_range(i, s.size()); return *(s.begin() + i); }
Swath lhs_back(const Swaths& s) { assume(s.size() > 0); return s.back(); }
//= spec::lhs_back
Swath back(const Swaths& s) { assume(s.size() > 0); return *(s.begin() + (s.size() - 1)); }
Swath lhs_back_m(Swaths& s) { assume(s.size() > 0); return s.back(); }
//= spec::lhs_back_m
Swath back_m(Swaths& s) { assume(s.size() > 0); return *(s.begin() + (s.size() - 1)); }
Swath lhs_write(Swaths& s, int i, const Swath& v) { assume(i >= 0 && i < s.size()); s[i] = v; return s.at(i); }
//= spec::lhs_write
Swath write(Swaths& s, int i, const Swath& v) { assume(i >= 0 && i < s.size()); return v; }
inline void push(std::vector<Swath>& v, const Swaths& s) { for (auto it = s.begin(); it != s.end(); ++it) v.push_back(*it); }
inline std::vector<Swath> all(const Swaths& s) { std::vector<Swath> v; push(v, s); return v; }
std::vector<Swath> lhs_from(const std::vector<Swath>& v) { return all(Swaths(v)); }
//= spec::lhs_from
std::vector<Swath> from(const std::vector<Swath>& v) { return v; }
std::vector<Swath> lhs_push(Swaths& s, const Swath& v) { s.push_back(v); return all(s); }
//= spec::lhs_push
std::vector<Swath> push_one(Swaths& s, const Swath& v) { std::vector<Swath> r = all(s); r.push_back(v); return r; }
std::vector<Swath> lhs_emplace(Swaths& s, const Swath& v) { s.emplace_back(v); return all(s); }
//= spec::lhs_emplace
std::vector<Swath> emplace_one(Swaths& s, const Swath& v) { std::vector<Swath> r = all(s); r.push_back(v); return r; }
std::vector<Swath> lhs_emplace4(Swaths& s, const LineString& l, double w, int id, SwathType t) { s.emplace_back(l, w, id, t); return all(s); }
//= spec::lhs_emplace4
std::vector<Swath> emplace4(Swaths& s, const LineString& l, double w, int id, SwathType t) { std::vector<Swath> r = all(s); r.push_back(Swath(l, w, id, t)); return r; }
std::vector<Swath> lhs_append1(Swaths& s, const LineString& l, double w, SwathType t) { s.append(l, w, t); return all(s); }
//= spec::lhs_append1
std::vector<Swath> append1(Swaths& s, const LineString& l, double w, SwathType t) {
  std::vector<Swath> r = all(s);
  r.push_back(Swath(l, w, r.size(), t));
  return r;
}
inline std::vector<Swath> more(std::vector<Swath> r, const MultiLineString& l, double w, SwathType t) {
  size_t n = r.size();
  for (size_t i = 0; i < n_members(l.get()); ++i) r.push_back(Swath(raw_line(line_of(l.get(), i)), w, n + i, t));
  return r;
}
std::vector<Swath> lhs_append2(Swaths& s, const MultiLineString& l, double w, SwathType t) { s.append(l, w, t); return all(s); }
//= spec::lhs_append2
std::vector<Swath> append2(Swaths& s, const MultiLineString& l, double w, SwathType t) { return more(all(s), l, w, t); }
std::vector<Swath> lhs_append3(Swaths& s, const LineString& l, const Cell& c, double w, SwathType t) { s.append(l, c, w, t); return all(s); }
//= spec::lhs_append3 ;opaque=*MultiLineString::intersection
std::vector<Swath> append3(Swaths& s, const LineString& l, const Cell& c, double w, SwathType t) { return more(all(s), MultiLineString::intersection(l, c), w, t); }
std::vector<Swath> lhs_append4(Swaths& s, const LineString& l, const Cells& c, double w, SwathType t) { s.append(l, c, w, t); return all(s); }
//= spec::lhs_append4 ;opaque=*MultiLineString::intersection
std::vector<Swath> append4(Swaths& s, const LineString& l, const Cells& c, double w, SwathType t) { return more(all(s), MultiLineString::intersection(l, c), w, t); }
std::vector<Swath> lhs_append5(Swaths& s, const MultiLineString& l, const Cell& c, double w, SwathType t) { s.append(l, c, w, t); return all(s); }
//= spec::lhs_append5 ;opaque=*MultiLineString::intersection
std::vector<Swath> append5(Swaths& s, const MultiLineString& l, const Cell& c, double w, SwathType t) { return more(all(s), l.intersection(c), w, t); }
std::vector<Swath> lhs_append6(Swaths& s, const MultiLineString& l, const Cells& c, double w, SwathType t) { s.append(l, c, w, t); return all(s); }
//= spec::lhs_append6 ;opaque=*MultiLineString::intersection
std::vector<Swath> append6(Swaths& s, const MultiLineString& l, const Cells& c, double w, SwathType t) { return more(all(s), l.intersection(c), w, t); }
std::vector<Swath> lhs_append7(Swaths& s, const Swaths& o) { s.append(o); return all(s); }
//= spec::lhs_append7
std::vector<Swath> append7(Swaths& s, const Swaths& o) { std::vector<Swath> r = all(s); push(r, o); return r; }
std::vector<Swath> lhs_reverse(Swaths& s) { s.reverse(); return all(s); }
//= spec::lhs_reverse
std::vector<Swath> reverse(Swaths& s) { std::vector<Swath> v = all(s), r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[v.size() - 1 - i]); return r; }
std::vector<Swath> lhs_sort(Swaths& s) { s.sort(); return all(s); }
//= spec::lhs_sort
std::vector<Swath> sort(Swaths& s) {
  std::vector<Swath> r;
  for (size_t i = 0; i < s.size(); ++i) {
    Swath w = s.at(i).clone();
    if (w.endPoint() < w.startPoint()) w.reverse();
    r.push_back(w);
  }
  std::sort(r.begin(), r.end(), [](const Swath& a, const Swath& b) { return a.getId() < b.getId(); });
  return r;
}
std::vector<Swath> lhs_odd(Swaths& s) { s.reverseDirOddSwaths(); return all(s); }
//= spec::lhs_odd
std::vector<Swath> odd(Swaths& s) {
  std::vector<Swath> r;
  for (size_t i = 0; i < s.size(); ++i) {
    Swath w = s.at(i).clone();
    if (i > 0 && w.getCreationDir() != (s.at(0).getCreationDir() == (i % 2 == 0))) w.reverse();
    r.push_back(w);
  }
  return r;
}
std::vector<Swath> lhs_move(Swaths& s, const Point& d) { s.moveTo(d); return all(s); }
//= spec::lhs_move
std::vector<Swath> move(Swaths& s, const Point& d) {
  std::vector<Swath> r;
  for (size_t i = 0; i < s.size(); ++i) { Swath w = s.at(i).clone(); w.setPath(shifted(w.getPath(), d)); r.push_back(w); }
  return r;
}
//= f2c::types::SwathsByCells::size() const
size_t by_size(const SwathsByCells& s) { size_t n = 0; for (auto it = s.begin(); it != s.end(); ++it) ++n; return n; }
//= f2c::types::SwathsByCells::sizeTotal() const
size_t by_total(const SwathsByCells& s) { int n = 0; for (auto it = s.begin(); it != s.end(); ++it) n = n + it->size(); return n; }
//= f2c::types::SwathsByCells::at(unsigned long) const
const Swaths& by_at(const SwathsByCells& s, size_t i) { in_range(i, s.size()); return *(s.begin() + i); }
//= f2c::types::SwathsByCells::at(unsigned long)
Swaths& by_at_m(SwathsByCells& s, size_t i) { in_range(i, s.size()); return *(s.begin() + i); }
Swaths lhs_by_index(const SwathsByCells& s, int i) { assume(i >= 0 && i < s.size()); return s[i]; }
//= spec::lhs_by_index
Swaths by_index(const SwathsByCells& s, int i) { assume(i >= 0 && i < s.size()); return *(s.begin() + i); }
Swaths lhs_by_index_m(SwathsByCells& s, int i) { assume(i >= 0 && i < s.size()); return s[i]; }
//= spec::lhs_by_index_m
Swaths by_index_m(SwathsByCells& s, int i) { assume(i >= 0 && i < s.size()); return *(s.begin() + i); }
Swaths lhs_by_back(const SwathsByCells& s) { assume(s.size() > 0); return s.back(); }
//= spec::lhs_by_back
Swaths by_back(const SwathsByCells& s) { assume(s.size() > 0); return *(s.begin() + (s.size() - 1)); }
Swaths lhs_by_back_m(SwathsByCells& s) { assume(s.size() > 0); return s.back(); }
//= spec::lhs_by_back_m
Swaths by_back_m(SwathsByCells& s) { assume(s.size() > 0); return *(s.begin() + (s.size() - 1)); }
inline std::vector<Swaths> every(const SwathsByCells& s) { std::vector<Swaths> v; for (auto it = s.begin(); it != s.end(); ++it) v.push_back(*it); return v; }
std::vector<Swaths> lhs_by_push(SwathsByCells& s, const Swaths& v) { s.push_back(v); return every(s); }
//= spec::lhs_by_push
std::vector<Swaths> by_push(SwathsByCells& s, const Swaths& v) { std::vector<Swaths> r = every(s); r.push_back(v); return r; }
std::vector<Swaths> lhs_by_emplace(SwathsByCells& s, const Swaths& v) { s.emplace_back(v); return every(s); }
//= spec::lhs_by_emplace
std::vector<Swaths> by_emplace(SwathsByCells& s, const Swaths& v) { std::vector<Swaths> r = every(s); r.push_back(v); return r; }
std::vector<Swaths> lhs_by_from(const std::vector<Swaths>& v) { return every(SwathsByCells(v)); }
//= spec::lhs_by_from
std::vector<Swaths> by_from(const std::vector<Swaths>& v) { return v; }
std::vector<Swaths> lhs_by_reverse(SwathsByCells& s) { s.reverse(); return every(s); }
//= spec::lhs_by_reverse
std::vector<Swaths> by_reverse(SwathsByCells& s) { std::vector<Swaths> v = every(s), r; for (size_t i = 0; i < v.size(); ++i) r.push_back(v[v.size() - 1 - i]); return r; }
inline Swath nth(const SwathsByCells& s, size_t i) {
  size_t before = 0;
  for (size_t j = 0; j < s.size(); ++j) {
    if (i < before + s.at(j).size()) return s.at(j).at(i - before);
    before += s.at(j).size();
  }
  throw std::out_of_range("");
}
Swath lhs_nth(const SwathsByCells& s, size_t i) { return s.getSwath(i); }
//= spec::lhs_nth
Swath nth_const(const SwathsByCells& s, size_t i) { return nth(s, i); }
Swath lhs_nth_m(SwathsByCells& s, size_t i) { return s.getSwath(i); }
//= spec::lhs_nth_m
Swath nth_m(SwathsByCells& s, size_t i) { return nth(s, i); }
std::vector<Swath> lhs_flat(const SwathsByCells& s) { return all(s.flatten()); }
//= spec::lhs_flat
std::vector<Swath> flat(const SwathsByCells& s) {
  std::vector<Swath> r;
  for (size_t j = 0; j < s.size(); ++j) for (size_t i = 0; i < s.at(j).size(); ++i) r.push_back(s.at(j).at(i));
  return r;
}
std::vector<Swath> lhs_sized(int n) { assume(n >= 0 && n < 6); return all(Swaths(n)); }
//= spec::lhs_sized
std::vector<Swath> sized(int n) { assume(n >= 0 && n < 6); std::vector<Swath> v; for (int i = 0; i < n; ++i) v.push_back(Swath()); return v; }
std::vector<Swath> lhs_listed(const Swath& a, const Swath& b, const Swath& c) { return all(Swaths({a, b, c})); }
//= spec::lhs_listed
std::vector<Swath> listed(const Swath& a, const Swath& b, const Swath& c) { std::vector<Swath> v; v.push_back(a); v.push_back(b); v.push_back(c); return v; }
inline std::vector<Swaths> parts(const SwathsByCells& s) { std::vector<Swaths> v; for (auto it = s.begin(); it != s.end(); ++it) v.push_back(*it); return v; }
size_t lhs_by_sized(int n) { assume(n >= 0 && n < 6); SwathsByCells s(n); return s.size() * 100 + s.sizeTotal(); }
//= spec::lhs_by_sized
size_t by_sized(int n) { assume(n >= 0 && n < 6); return n * 100; }
std::vector<Swaths> lhs_by_listed(const Swaths& a, const Swaths& b) { return parts(SwathsByCells({a, b})); }
//= spec::lhs_by_listed
std::vector<Swaths> by_listed(const Swaths& a, const Swaths& b) { std::vector<Swaths> v; v.push_back(a); v.push_back(b); return v; }
Swaths lhs_walk(Swaths& s, int id) { for (auto it = s.begin(); it != s.end(); ++it) it->setId(id); return s; }
//= spec::lhs_walk
Swaths walk(Swaths& s, int id) { for (size_t i = 0; i < s.size(); ++i) s[i].setId(id); return s; }
SwathsByCells lhs_by_walk(SwathsByCells& s, const Swath& x) { for (auto it = s.begin(); it != s.end(); ++it) it->push_back(x); return s; }
//= spec::lhs_by_walk
SwathsByCells by_walk(SwathsByCells& s, const Swath& x) { for (size_t i = 0; i < s.size(); ++i) s[i].push_back(x); return s; }
}
