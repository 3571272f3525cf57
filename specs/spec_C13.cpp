// What the edges, costs and paths of a graph are.
#include "spec.h"
#include <numeric>
namespace spec {
struct Edge { size_t from, to; uint32_t cost; };
inline Graph built(const std::vector<Edge>& es) {
  Graph g;
  for (size_t i = 0; i < es.size(); ++i) g.addDirectedEdge(es[i].from % 4, es[i].to % 4, es[i].cost);
  return g;
}
// the last edge given between two nodes counts
inline int64_t direct(const std::vector<Edge>& es, size_t from, size_t to, int64_t none) {
  int64_t c = none;
  for (size_t i = 0; i < es.size(); ++i) if (es[i].from % 4 == from && es[i].to % 4 == to) c = es[i].cost;
  return c;
}
int64_t lhs_edge_cost(const std::vector<Edge>& es, size_t from, size_t to, int64_t none) { return built(es).getCostFromEdge(from % 4, to % 4, none); }
//= spec::lhs_edge_cost
int64_t edge_cost(const std::vector<Edge>& es, size_t from, size_t to, int64_t none) { return direct(es, from % 4, to % 4, none); }
// nodes that were never mentioned have no edges
int64_t lhs_no_cost(const std::vector<Edge>& es, size_t from, size_t to, int64_t none) { return built(es).getCostFromEdge(from + 4, to, none); }
//= spec::lhs_no_cost
int64_t no_cost(const std::vector<Edge>& es, size_t from, size_t to, int64_t none) { return none; }
int64_t lhs_both(const std::vector<Edge>& es, size_t i, size_t j, int64_t c, size_t a, size_t b, int64_t none) {
  Graph g = built(es); g.addEdge(i % 4, j % 4, c); return g.getCostFromEdge(a % 4, b % 4, none);
}
//= spec::lhs_both
int64_t both(const std::vector<Edge>& es, size_t i, size_t j, int64_t c, size_t a, size_t b, int64_t none) {
  i %= 4; j %= 4; a %= 4; b %= 4;
  if ((a == i && b == j) || (a == j && b == i)) return c;
  return direct(es, a, b, none);
}
int64_t lhs_removed(const std::vector<Edge>& es, size_t i, size_t j, size_t a, size_t b, int64_t none) {
  Graph g = built(es); g.removeDirectedEdge(i % 4, j % 4); return g.getCostFromEdge(a % 4, b % 4, none);
}
//= spec::lhs_removed
int64_t removed(const std::vector<Edge>& es, size_t i, size_t j, size_t a, size_t b, int64_t none) {
  i %= 4; j %= 4; a %= 4; b %= 4;
  if (a == i && b == j) return none;
  return direct(es, a, b, none);
}
int64_t lhs_removed2(const std::vector<Edge>& es, size_t i, size_t j, size_t a, size_t b, int64_t none) {
  Graph g = built(es); g.removeEdge(i % 4, j % 4); return g.getCostFromEdge(a % 4, b % 4, none);
}
//= spec::lhs_removed2
int64_t removed2(const std::vector<Edge>& es, size_t i, size_t j, size_t a, size_t b, int64_t none) {
  i %= 4; j %= 4; a %= 4; b %= 4;
  if ((a == i && b == j) || (a == j && b == i)) return none;
  return direct(es, a, b, none);
}
// neighbours and numbers of nodes and edges
std::vector<bool> lhs_from(const std::vector<Edge>& es, size_t s) {
  std::vector<bool> r(4, false);
  std::vector<size_t> f = built(es).getEdgesFrom(s % 4);
  for (size_t i = 0; i < f.size(); ++i) r[f[i]] = true;
  return r;
}
//= spec::lhs_from
std::vector<bool> from(const std::vector<Edge>& es, size_t s) {
  std::vector<bool> r;
  for (size_t i = 0; i < 4; ++i) r.push_back(direct(es, s % 4, i, -1) >= 0);
  return r;
}
size_t lhs_nfrom(const std::vector<Edge>& es, size_t s) { return built(es).getEdgesFrom(s % 4).size(); }
//= spec::lhs_nfrom
size_t nfrom(const std::vector<Edge>& es, size_t s) { size_t n = 0; for (size_t i = 0; i < 4; ++i) n += direct(es, s % 4, i, -1) >= 0; return n; }
size_t lhs_nedges(const std::vector<Edge>& es) { return built(es).numEdges(); }
//= spec::lhs_nedges
size_t nedges(const std::vector<Edge>& es) {
  size_t n = 0;
  for (size_t i = 0; i < 4; ++i) for (size_t j = 0; j < 4; ++j) n += direct(es, i, j, -1) >= 0;
  return n;
}
size_t lhs_nnodes(const std::vector<Edge>& es) { return built(es).numNodes(); }
//= spec::lhs_nnodes
size_t nnodes(const std::vector<Edge>& es) {
  size_t n = 0;
  for (size_t i = 0; i < 4; ++i) { bool in = false; for (size_t k = 0; k < es.size(); ++k) if (es[k].from % 4 == i || es[k].to % 4 == i) in = true; n += in; }
  return n;
}
// shortest costs: relaxing every edge as often as there are nodes
int64_t lhs_shortest(const std::vector<Edge>& es, size_t from, size_t to) { return built(es).shortestPathCost(from % 4, to % 4); }
inline int64_t relaxed(const std::vector<Edge>& es, size_t from, size_t to, int64_t inf) {
  std::vector<int64_t> d(4, inf);
  d[from] = 0;
  for (size_t k = 0; k < 4; ++k)
    for (size_t i = 0; i < es.size(); ++i) {
      size_t u = es[i].from % 4, v = es[i].to % 4;
      int64_t c = direct(es, u, v, inf);
      if (d[u] < inf && d[u] + c < d[v]) d[v] = d[u] + c;
    }
  return d[to];
}
inline bool mentioned(const std::vector<Edge>& es, size_t n) { bool in = false; for (size_t k = 0; k < es.size(); ++k) if (es[k].from % 4 == n || es[k].to % 4 == n) in = true; return in; }
//= spec::lhs_shortest
int64_t shortest(const std::vector<Edge>& es, size_t from, size_t to) {
  assume(mentioned(es, from % 4) && mentioned(es, to % 4));
  return relaxed(es, from % 4, to % 4, 1000000000000000);
}
// the path reported leads from the first node to the last one along edges, at the cost reported
int64_t lhs_path_cost(const std::vector<Edge>& es, size_t from, size_t to) {
  Graph g = built(es);
  std::vector<size_t> p = g.shortestPath(from % 4, to % 4);
  int64_t c = 0;
  for (size_t i = 0; i + 1 < p.size(); ++i) c += direct(es, p[i], p[i + 1], 1000000000000000);
  return c;
}
//= spec::lhs_path_cost
int64_t path_cost(const std::vector<Edge>& es, size_t from, size_t to) {
  assume(mentioned(es, from % 4) && mentioned(es, to % 4));
  int64_t c = relaxed(es, from % 4, to % 4, 1000000000000000);
  return c == 1000000000000000 ? 0 : c;
}
std::vector<size_t> lhs_ends(const std::vector<Edge>& es, size_t from, size_t to) {
  std::vector<size_t> p = built(es).shortestPath(from % 4, to % 4);
  std::vector<size_t> r;
  if (p.size() > 0) { r.push_back(p[0]); r.push_back(p[p.size() - 1]); }
  return r;
}
//= spec::lhs_ends
std::vector<size_t> ends(const std::vector<Edge>& es, size_t from, size_t to) {
  assume(mentioned(es, from % 4) && mentioned(es, to % 4));
  std::vector<size_t> r;
  if (from % 4 != to % 4 && relaxed(es, from % 4, to % 4, 1000000000000000) < 1000000000000000) { r.push_back(from % 4); r.push_back(to % 4); }
  return r;
}
// all answers agree with each other
std::vector<size_t> lhs_agree(const std::vector<Edge>& es, size_t from, size_t to) { return built(es).getPaths()[from % 4][to % 4]; }
//= spec::lhs_agree
std::vector<size_t> agree(const std::vector<Edge>& es, size_t from, size_t to) {
  assume(mentioned(es, from % 4) && mentioned(es, to % 4));
  return built(es).shortestPath(from % 4, to % 4);
}
int64_t lhs_agree_cost(const std::vector<Edge>& es, size_t from, size_t to) { return built(es).getCosts()[from % 4][to % 4]; }
//= spec::lhs_agree_cost
int64_t agree_cost(const std::vector<Edge>& es, size_t from, size_t to) {
  assume(mentioned(es, from % 4) && mentioned(es, to % 4));
  return built(es).shortestPathCost(from % 4, to % 4);
}
// nodes that are not there cannot be reached
int64_t lhs_far(const std::vector<Edge>& es, size_t from, size_t to, int64_t inf) { return built(es).shortestPathCost(from % 4, to + 4, inf); }
//= spec::lhs_far
int64_t far(const std::vector<Edge>& es, size_t from, size_t to, int64_t inf) { return inf; }
std::vector<size_t> lhs_far_path(const std::vector<Edge>& es, size_t from, size_t to, int64_t inf) { return built(es).shortestPath(from + 4, to % 4, inf); }
//= spec::lhs_far_path
std::vector<size_t> far_path(const std::vector<Edge>& es, size_t from, size_t to, int64_t inf) { return std::vector<size_t>(); }
// a chain of nodes, visited in any order of their numbers, and shortcuts between them
inline Graph chained(size_t k, bool back, uint32_t a, uint32_t b, uint32_t c, uint32_t skip, uint32_t jump) {
  size_t s = back ? 3 : 1;
  Graph g;
  g.addDirectedEdge(k % 4, (k + s) % 4, a);
  g.addDirectedEdge((k + s) % 4, (k + 2 * s) % 4, b);
  g.addDirectedEdge((k + 2 * s) % 4, (k + 3 * s) % 4, c);
  g.addDirectedEdge(k % 4, (k + 2 * s) % 4, skip);
  g.addDirectedEdge(k % 4, (k + 3 * s) % 4, jump);
  return g;
}
int64_t lhs_chain(size_t k, bool back, uint32_t a, uint32_t b, uint32_t c, uint32_t skip, uint32_t jump) {
  return chained(k, back, a, b, c, skip, jump).shortestPathCost(k % 4, (k + (back ? 9 : 3)) % 4);
}
//= spec::lhs_chain
int64_t chain(size_t k, bool back, uint32_t a, uint32_t b, uint32_t c, uint32_t skip, uint32_t jump) {
  int64_t m = int64_t(a) + b, j = jump;
  if (skip < m) m = skip;
  m += c;
  return j < m ? j : m;
}
size_t lhs_hops(size_t k, bool back, uint32_t a, uint32_t b, uint32_t c) {
  return chained(k, back, a, b, c, 4294967295u, 4294967295u).shortestPath(k % 4, (k + (back ? 9 : 3)) % 4).size();
}
//= spec::lhs_hops
size_t hops(size_t k, bool back, uint32_t a, uint32_t b, uint32_t c) {
  assume(a < 1000 && b < 1000 && c < 1000);
  return 4;
}
// the search for every simple path, one step: a path is continued to each neighbour that is not on it yet
//= f2c::types::Graph::DFS(**) const ;opaque=f2c::types::Graph::DFS(*|f2c::types::Graph::getEdgesFrom(*
void search(const Graph& self, size_t from, size_t to, std::vector<std::vector<size_t>>& paths, std::vector<bool>& on, int& at) {
  std::vector<size_t> p = paths[at];
  p.push_back(from);
  paths.push_back(p);
  int mine = paths.size() - 1;
  if (from == to) return;
  on[from] = true;
  std::vector<size_t> next = self.getEdgesFrom(from);
  for (size_t i = 0; i < next.size(); ++i) if (!on[next[i]]) self.DFS(next[i], to, paths, on, mine);
  on[from] = false;
}
//= f2c::types::Graph::allPathsBetween(**) const ;opaque=f2c::types::Graph::DFS(*|f2c::types::Graph::numIndexes(*
std::vector<std::vector<size_t>> all_paths(const Graph& self, size_t from, size_t to) {
  size_t n = self.numIndexes();
  std::vector<bool> on(n > from ? n : from + 1, false);
  std::vector<std::vector<size_t>> paths(1), r;
  int at = 0;
  self.DFS(from, to, paths, on, at);
  for (size_t i = 0; i < paths.size(); ++i) if (paths[i].size() > 0 && paths[i].back() == to) r.push_back(paths[i]);
  return r;
}
size_t lhs_all_edges(const std::vector<Edge>& es) { auto m = built(es).getEdges(); size_t n = 0; for (auto& e : m) n += e.second.size(); return n; }
//= spec::lhs_all_edges
size_t all_edges(const std::vector<Edge>& es) { return nedges(es); }
int64_t lhs_edges_at(const std::vector<Edge>& es, size_t from, size_t to) { auto m = built(es).getEdges(); if (m.count(from % 4) == 0 || m.at(from % 4).count(to % 4) == 0) return -1; return m.at(from % 4).at(to % 4); }
//= spec::lhs_edges_at
int64_t edges_at(const std::vector<Edge>& es, size_t from, size_t to) { return direct(es, from % 4, to % 4, -1); }
}
