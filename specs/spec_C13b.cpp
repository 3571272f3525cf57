// Graphs of points: the same as graphs of numbers, with points for nodes.
#include "spec.h"
namespace spec {
struct Edge2 { size_t from, to; uint32_t cost; };
inline Point at(size_t i) { return Point(double(i % 3), double(i % 3) * 4.0 + 1.0); }
inline Graph2D plane(const std::vector<Edge2>& es) {
  Graph2D g;
  for (size_t i = 0; i < es.size(); ++i) g.addDirectedEdge(at(es[i].from), at(es[i].to), es[i].cost);
  return g;
}
inline bool in2(const std::vector<Edge2>& es, size_t n) { bool in = false; for (size_t k = 0; k < es.size(); ++k) if (es[k].from % 3 == n % 3 || es[k].to % 3 == n % 3) in = true; return in; }
inline int64_t direct2(const std::vector<Edge2>& es, size_t from, size_t to, int64_t none) {
  int64_t c = none;
  for (size_t i = 0; i < es.size(); ++i) if (es[i].from % 3 == from % 3 && es[i].to % 3 == to % 3) c = es[i].cost;
  return c;
}
inline int64_t relaxed2(const std::vector<Edge2>& es, size_t from, size_t to, int64_t inf) {
  if (from % 3 == to % 3) return 0;
  int64_t d = direct2(es, from, to, inf);
  for (size_t k = 0; k < 3; ++k) {
    if (k == from % 3 || k == to % 3) continue;
    int64_t a = direct2(es, from, k, inf), b = direct2(es, k, to, inf);
    if (a < inf && b < inf && a + b < d) d = a + b;
  }
  return d;
}
Point lhs_p_round(const std::vector<Edge2>& es, size_t i) { Graph2D g = plane(es); assume(in2(es, i)); return g.indexToNode(g.nodeToIndex(at(i))); }
//= spec::lhs_p_round
Point p_round(const std::vector<Edge2>& es, size_t i) { assume(in2(es, i)); return at(i); }
bool lhs_p_index(const std::vector<Edge2>& es, size_t i, size_t j) { Graph2D g = plane(es); assume(in2(es, i) && in2(es, j)); return g.nodeToIndex(at(i)) == g.nodeToIndex(at(j)); }
//= spec::lhs_p_index
bool p_index(const std::vector<Edge2>& es, size_t i, size_t j) { assume(in2(es, i) && in2(es, j)); return i % 3 == j % 3; }
bool lhs_p_range(const std::vector<Edge2>& es, size_t i) { Graph2D g = plane(es); assume(in2(es, i)); return g.nodeToIndex(at(i)) < g.numNodes(); }
//= spec::lhs_p_range
bool p_range(const std::vector<Edge2>& es, size_t i) { assume(in2(es, i)); return true; }
size_t lhs_p_nodes(const std::vector<Edge2>& es) { return plane(es).numNodes(); }
//= spec::lhs_p_nodes
size_t p_nodes(const std::vector<Edge2>& es) { size_t n = 0; for (size_t i = 0; i < 3; ++i) n += in2(es, i); return n; }
size_t lhs_p_nodes2(const std::vector<Edge2>& es) { return plane(es).getNodes().size(); }
//= spec::lhs_p_nodes2
size_t p_nodes2(const std::vector<Edge2>& es) { size_t n = 0; for (size_t i = 0; i < 3; ++i) n += in2(es, i); return n; }
size_t lhs_p_edges(const std::vector<Edge2>& es) { return plane(es).numEdges(); }
//= spec::lhs_p_edges
size_t p_edges(const std::vector<Edge2>& es) { size_t n = 0; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) n += direct2(es, i, j, -1) >= 0; return n; }
int64_t lhs_p_edge(const std::vector<Edge2>& es, size_t i, size_t j, int64_t none) {
  Graph2D g = plane(es); assume(in2(es, i) && in2(es, j));
  return g.getCostFromEdge(g.nodeToIndex(at(i)), g.nodeToIndex(at(j)), none);
}
//= spec::lhs_p_edge
int64_t p_edge(const std::vector<Edge2>& es, size_t i, size_t j, int64_t none) { assume(in2(es, i) && in2(es, j)); return direct2(es, i, j, none); }
int64_t lhs_p_both(const std::vector<Edge2>& es, size_t i, size_t j, int64_t c, size_t a, size_t b, int64_t none) {
  Graph2D g = plane(es); g.addEdge(at(i), at(j), c); assume(in2(es, a) && in2(es, b));
  return g.getCostFromEdge(g.nodeToIndex(at(a)), g.nodeToIndex(at(b)), none);
}
//= spec::lhs_p_both
int64_t p_both(const std::vector<Edge2>& es, size_t i, size_t j, int64_t c, size_t a, size_t b, int64_t none) {
  assume(in2(es, a) && in2(es, b));
  i %= 3; j %= 3; a %= 3; b %= 3;
  if ((a == i && b == j) || (a == j && b == i)) return c;
  return direct2(es, a, b, none);
}
int64_t lhs_p_removed(const std::vector<Edge2>& es, size_t i, size_t j, size_t a, size_t b, int64_t none) {
  Graph2D g = plane(es); assume(in2(es, i) && in2(es, j)); assume(in2(es, a) && in2(es, b));
  g.removeDirectedEdge(at(i), at(j));
  return g.getCostFromEdge(g.nodeToIndex(at(a)), g.nodeToIndex(at(b)), none);
}
//= spec::lhs_p_removed
int64_t p_removed(const std::vector<Edge2>& es, size_t i, size_t j, size_t a, size_t b, int64_t none) {
  assume(in2(es, i) && in2(es, j)); assume(in2(es, a) && in2(es, b));
  i %= 3; j %= 3; a %= 3; b %= 3;
  return (a == i && b == j) ? none : direct2(es, a, b, none);
}
int64_t lhs_p_removed2(const std::vector<Edge2>& es, size_t i, size_t j, size_t a, size_t b, int64_t none) {
  Graph2D g = plane(es); assume(in2(es, i) && in2(es, j)); assume(in2(es, a) && in2(es, b));
  g.removeEdge(at(i), at(j));
  return g.getCostFromEdge(g.nodeToIndex(at(a)), g.nodeToIndex(at(b)), none);
}
//= spec::lhs_p_removed2
int64_t p_removed2(const std::vector<Edge2>& es, size_t i, size_t j, size_t a, size_t b, int64_t none) {
  assume(in2(es, i) && in2(es, j)); assume(in2(es, a) && in2(es, b));
  i %= 3; j %= 3; a %= 3; b %= 3;
  return ((a == i && b == j) || (a == j && b == i)) ? none : direct2(es, a, b, none);
}
int64_t lhs_p_cost(const std::vector<Edge2>& es, size_t i, size_t j, uint32_t more) {
  assume(in2(es, i) && in2(es, j));
  return plane(es).shortestPathCost(at(i), at(j), 100000000000 + int64_t(more));
}
//= spec::lhs_p_cost
int64_t p_cost(const std::vector<Edge2>& es, size_t i, size_t j, uint32_t more) { assume(in2(es, i) && in2(es, j)); return relaxed2(es, i, j, 100000000000 + int64_t(more)); }
std::vector<Point> lhs_p_path(const std::vector<Edge2>& es, size_t i, size_t j, uint32_t inf) {
  assume(in2(es, i) && in2(es, j));
  return plane(es).shortestPath(at(i), at(j), int64_t(inf % 16));
}
//= spec::lhs_p_path
std::vector<Point> p_path(const std::vector<Edge2>& es, size_t i, size_t j, uint32_t inf) {
  assume(in2(es, i) && in2(es, j));
  Graph2D g = plane(es);
  std::vector<size_t> p = g.shortestPath(g.nodeToIndex(at(i)), g.nodeToIndex(at(j)), int64_t(inf % 16));
  std::vector<Point> r;
  for (size_t k = 0; k < p.size(); ++k) r.push_back(g.indexToNode(p[k]));
  return r;
}
int64_t lhs_p_undo(size_t i, size_t j, uint32_t c, bool back) {
  assume(i % 3 != j % 3);
  Graph2D g; g.addEdge(at(i), at(j), c); g.removeEdge(at(i), at(j));
  return back ? g.getCostFromEdge(1, 0, -1) : g.getCostFromEdge(0, 1, -1);
}
//= spec::lhs_p_undo
int64_t p_undo(size_t i, size_t j, uint32_t c, bool back) { assume(i % 3 != j % 3); return -1; }
int64_t lhs_undo(size_t i, size_t j, uint32_t c, bool back) {
  Graph g; g.addEdge(i % 3, j % 3, c); g.removeEdge(i % 3, j % 3);
  return back ? g.getCostFromEdge(j % 3, i % 3, -1) : g.getCostFromEdge(i % 3, j % 3, -1);
}
//= spec::lhs_undo
int64_t undo(size_t i, size_t j, uint32_t c, bool back) { return -1; }
// without a cost given, it is the distance in millimetres
int64_t lhs_p_default(const Point& a, const Point& b) { assume(a.X() < b.X()); Graph2D g; g.addDirectedEdge(a, b); return g.getCostFromEdge(0, 1); }
//= spec::lhs_p_default
int64_t p_default(const Point& a, const Point& b) { assume(a.X() < b.X()); return int64_t(1000.0 * a.distance(b)); }
int64_t lhs_p_default2(const Point& a, const Point& b, bool back) { assume(a.X() < b.X()); Graph2D g; g.addEdge(a, b); return back ? g.getCostFromEdge(1, 0) : g.getCostFromEdge(0, 1); }
//= spec::lhs_p_default2
int64_t p_default2(const Point& a, const Point& b, bool back) { assume(a.X() < b.X()); return int64_t(1000.0 * a.distance(b)); }
// or the cost of the shortest way in another graph, in the same direction
int64_t lhs_p_other(const std::vector<Edge2>& es, size_t i, size_t j) {
  assume(in2(es, i) && in2(es, j)); assume(i % 3 != j % 3);
  Graph2D o = plane(es), g; g.addDirectedEdge(at(i), at(j), o); return g.getCostFromEdge(0, 1);
}
//= spec::lhs_p_other
int64_t p_other(const std::vector<Edge2>& es, size_t i, size_t j) {
  assume(in2(es, i) && in2(es, j)); assume(i % 3 != j % 3);
  return plane(es).shortestPathCost(at(i), at(j));
}
int64_t lhs_p_other2(const std::vector<Edge2>& es, size_t i, size_t j, bool back) {
  assume(in2(es, i) && in2(es, j)); assume(i % 3 != j % 3);
  Graph2D o = plane(es), g; g.addEdge(at(i), at(j), o); return back ? g.getCostFromEdge(1, 0) : g.getCostFromEdge(0, 1);
}
//= spec::lhs_p_other2
int64_t p_other2(const std::vector<Edge2>& es, size_t i, size_t j, bool back) {
  assume(in2(es, i) && in2(es, j)); assume(i % 3 != j % 3);
  return back ? plane(es).shortestPathCost(at(j), at(i)) : plane(es).shortestPathCost(at(i), at(j));
}
// every path between two points is a path between their nodes
//= f2c::types::Graph2D::allPathsBetween(**) const ;opaque=f2c::types::Graph::allPathsBetween(* ;totalmaps=1
std::vector<std::vector<Point>> p_all_paths(const Graph2D& self, const Point& from, const Point& to) {
  std::vector<std::vector<size_t>> ps = static_cast<const Graph&>(self).allPathsBetween(self.nodeToIndex(from), self.nodeToIndex(to));
  std::vector<std::vector<Point>> r;
  for (size_t i = 0; i < ps.size(); ++i) {
    std::vector<Point> q;
    for (size_t j = 0; j < ps[i].size(); ++j) q.push_back(self.indexToNode(ps[i][j]));
    r.push_back(q);
  }
  return r;
}
}
