// Answers of a graph describe its current edges, whatever was asked before.
#include "spec.h"
namespace spec {
struct Edge { size_t from, to; uint32_t cost; };
inline Graph built(const std::vector<Edge>& es) {
  Graph g;
  for (size_t i = 0; i < es.size(); ++i) g.addDirectedEdge(es[i].from % 4, es[i].to % 4, es[i].cost);
  return g;
}
struct Q { size_t from, to; };
inline void ask_path(Graph& g, const Q& q) { g.shortestPath(q.from % 4, q.to % 4); }
inline void ask_cost(Graph& g, const Q& q) { g.shortestPathCost(q.from % 4, q.to % 4); }
inline void ask_paths(Graph& g, const Q&) { g.getPaths(); }
inline void ask_costs(Graph& g, const Q&) { g.getCosts(); }
inline void add(Graph& g, const Edge& e) { g.addDirectedEdge(e.from % 4, e.to % 4, e.cost); }
inline void add2(Graph& g, const Edge& e) { g.addEdge(e.from % 4, e.to % 4, e.cost); }
inline void rem(Graph& g, const Edge& e) { g.removeDirectedEdge(e.from % 4, e.to % 4); }
inline void rem2(Graph& g, const Edge& e) { g.removeEdge(e.from % 4, e.to % 4); }
inline int64_t cost(Graph& g, const Q& q) { return g.shortestPathCost(q.from % 4, q.to % 4); }
inline std::vector<size_t> path(Graph& g, const Q& q) { return g.shortestPath(q.from % 4, q.to % 4); }
inline std::vector<std::vector<int64_t>> costs(Graph& g, const Q&) { return g.getCosts(); }
inline short_path_container_t paths(Graph& g, const Q&) { return g.getPaths(); }
int64_t lhs_add_cost_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_path(g, p); add(g, e); return cost(g, q);
}
//= spec::lhs_add_cost_after_path ;opaque=*Graph::initializeMatrices(*
int64_t add_cost_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return cost(g, q);
}
int64_t lhs_add_cost_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_cost(g, p); add(g, e); return cost(g, q);
}
//= spec::lhs_add_cost_after_cost ;opaque=*Graph::initializeMatrices(*
int64_t add_cost_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return cost(g, q);
}
int64_t lhs_add_cost_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_paths(g, p); add(g, e); return cost(g, q);
}
//= spec::lhs_add_cost_after_paths ;opaque=*Graph::initializeMatrices(*
int64_t add_cost_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return cost(g, q);
}
int64_t lhs_add_cost_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_costs(g, p); add(g, e); return cost(g, q);
}
//= spec::lhs_add_cost_after_costs ;opaque=*Graph::initializeMatrices(*
int64_t add_cost_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return cost(g, q);
}
std::vector<size_t> lhs_add_path_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_path(g, p); add(g, e); return path(g, q);
}
//= spec::lhs_add_path_after_path ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> add_path_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return path(g, q);
}
std::vector<size_t> lhs_add_path_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_cost(g, p); add(g, e); return path(g, q);
}
//= spec::lhs_add_path_after_cost ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> add_path_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return path(g, q);
}
std::vector<size_t> lhs_add_path_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_paths(g, p); add(g, e); return path(g, q);
}
//= spec::lhs_add_path_after_paths ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> add_path_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return path(g, q);
}
std::vector<size_t> lhs_add_path_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_costs(g, p); add(g, e); return path(g, q);
}
//= spec::lhs_add_path_after_costs ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> add_path_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return path(g, q);
}
std::vector<std::vector<int64_t>> lhs_add_costs_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_path(g, p); add(g, e); return costs(g, q);
}
//= spec::lhs_add_costs_after_path ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> add_costs_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_add_costs_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_cost(g, p); add(g, e); return costs(g, q);
}
//= spec::lhs_add_costs_after_cost ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> add_costs_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_add_costs_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_paths(g, p); add(g, e); return costs(g, q);
}
//= spec::lhs_add_costs_after_paths ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> add_costs_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_add_costs_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_costs(g, p); add(g, e); return costs(g, q);
}
//= spec::lhs_add_costs_after_costs ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> add_costs_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return costs(g, q);
}
short_path_container_t lhs_add_paths_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_paths(g, p); add(g, e); return paths(g, q);
}
//= spec::lhs_add_paths_after_paths
short_path_container_t add_paths_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return paths(g, q);
}
short_path_container_t lhs_add_paths_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_costs(g, p); add(g, e); return paths(g, q);
}
//= spec::lhs_add_paths_after_costs
short_path_container_t add_paths_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return paths(g, q);
}
int64_t lhs_add2_cost_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_path(g, p); add2(g, e); return cost(g, q);
}
//= spec::lhs_add2_cost_after_path ;opaque=*Graph::initializeMatrices(*
int64_t add2_cost_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return cost(g, q);
}
int64_t lhs_add2_cost_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_cost(g, p); add2(g, e); return cost(g, q);
}
//= spec::lhs_add2_cost_after_cost ;opaque=*Graph::initializeMatrices(*
int64_t add2_cost_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return cost(g, q);
}
int64_t lhs_add2_cost_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_paths(g, p); add2(g, e); return cost(g, q);
}
//= spec::lhs_add2_cost_after_paths ;opaque=*Graph::initializeMatrices(*
int64_t add2_cost_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return cost(g, q);
}
int64_t lhs_add2_cost_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_costs(g, p); add2(g, e); return cost(g, q);
}
//= spec::lhs_add2_cost_after_costs ;opaque=*Graph::initializeMatrices(*
int64_t add2_cost_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return cost(g, q);
}
std::vector<size_t> lhs_add2_path_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_path(g, p); add2(g, e); return path(g, q);
}
//= spec::lhs_add2_path_after_path ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> add2_path_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return path(g, q);
}
std::vector<size_t> lhs_add2_path_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_cost(g, p); add2(g, e); return path(g, q);
}
//= spec::lhs_add2_path_after_cost ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> add2_path_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return path(g, q);
}
std::vector<size_t> lhs_add2_path_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_paths(g, p); add2(g, e); return path(g, q);
}
//= spec::lhs_add2_path_after_paths ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> add2_path_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return path(g, q);
}
std::vector<size_t> lhs_add2_path_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_costs(g, p); add2(g, e); return path(g, q);
}
//= spec::lhs_add2_path_after_costs ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> add2_path_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return path(g, q);
}
std::vector<std::vector<int64_t>> lhs_add2_costs_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_path(g, p); add2(g, e); return costs(g, q);
}
//= spec::lhs_add2_costs_after_path ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> add2_costs_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_add2_costs_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_cost(g, p); add2(g, e); return costs(g, q);
}
//= spec::lhs_add2_costs_after_cost ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> add2_costs_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_add2_costs_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_paths(g, p); add2(g, e); return costs(g, q);
}
//= spec::lhs_add2_costs_after_paths ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> add2_costs_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_add2_costs_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_costs(g, p); add2(g, e); return costs(g, q);
}
//= spec::lhs_add2_costs_after_costs ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> add2_costs_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return costs(g, q);
}
short_path_container_t lhs_add2_paths_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_paths(g, p); add2(g, e); return paths(g, q);
}
//= spec::lhs_add2_paths_after_paths
short_path_container_t add2_paths_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return paths(g, q);
}
short_path_container_t lhs_add2_paths_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); ask_costs(g, p); add2(g, e); return paths(g, q);
}
//= spec::lhs_add2_paths_after_costs
short_path_container_t add2_paths_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); return paths(g, q);
}
int64_t lhs_rem_cost_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_path(g, p); rem(g, e); return cost(g, q);
}
//= spec::lhs_rem_cost_after_path ;opaque=*Graph::initializeMatrices(*
int64_t rem_cost_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return cost(g, q);
}
int64_t lhs_rem_cost_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_cost(g, p); rem(g, e); return cost(g, q);
}
//= spec::lhs_rem_cost_after_cost ;opaque=*Graph::initializeMatrices(*
int64_t rem_cost_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return cost(g, q);
}
int64_t lhs_rem_cost_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_paths(g, p); rem(g, e); return cost(g, q);
}
//= spec::lhs_rem_cost_after_paths ;opaque=*Graph::initializeMatrices(*
int64_t rem_cost_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return cost(g, q);
}
int64_t lhs_rem_cost_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_costs(g, p); rem(g, e); return cost(g, q);
}
//= spec::lhs_rem_cost_after_costs ;opaque=*Graph::initializeMatrices(*
int64_t rem_cost_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return cost(g, q);
}
std::vector<size_t> lhs_rem_path_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_path(g, p); rem(g, e); return path(g, q);
}
//= spec::lhs_rem_path_after_path ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> rem_path_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return path(g, q);
}
std::vector<size_t> lhs_rem_path_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_cost(g, p); rem(g, e); return path(g, q);
}
//= spec::lhs_rem_path_after_cost ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> rem_path_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return path(g, q);
}
std::vector<size_t> lhs_rem_path_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_paths(g, p); rem(g, e); return path(g, q);
}
//= spec::lhs_rem_path_after_paths ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> rem_path_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return path(g, q);
}
std::vector<size_t> lhs_rem_path_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_costs(g, p); rem(g, e); return path(g, q);
}
//= spec::lhs_rem_path_after_costs ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> rem_path_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return path(g, q);
}
std::vector<std::vector<int64_t>> lhs_rem_costs_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_path(g, p); rem(g, e); return costs(g, q);
}
//= spec::lhs_rem_costs_after_path ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> rem_costs_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_rem_costs_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_cost(g, p); rem(g, e); return costs(g, q);
}
//= spec::lhs_rem_costs_after_cost ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> rem_costs_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_rem_costs_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_paths(g, p); rem(g, e); return costs(g, q);
}
//= spec::lhs_rem_costs_after_paths ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> rem_costs_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_rem_costs_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_costs(g, p); rem(g, e); return costs(g, q);
}
//= spec::lhs_rem_costs_after_costs ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> rem_costs_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return costs(g, q);
}
short_path_container_t lhs_rem_paths_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_paths(g, p); rem(g, e); return paths(g, q);
}
//= spec::lhs_rem_paths_after_paths
short_path_container_t rem_paths_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return paths(g, q);
}
short_path_container_t lhs_rem_paths_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add(g, e); ask_costs(g, p); rem(g, e); return paths(g, q);
}
//= spec::lhs_rem_paths_after_costs
short_path_container_t rem_paths_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); rem(g, e); return paths(g, q);
}
int64_t lhs_rem2_cost_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_path(g, p); rem2(g, e); return cost(g, q);
}
//= spec::lhs_rem2_cost_after_path ;opaque=*Graph::initializeMatrices(*
int64_t rem2_cost_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return cost(g, q);
}
int64_t lhs_rem2_cost_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_cost(g, p); rem2(g, e); return cost(g, q);
}
//= spec::lhs_rem2_cost_after_cost ;opaque=*Graph::initializeMatrices(*
int64_t rem2_cost_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return cost(g, q);
}
int64_t lhs_rem2_cost_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_paths(g, p); rem2(g, e); return cost(g, q);
}
//= spec::lhs_rem2_cost_after_paths ;opaque=*Graph::initializeMatrices(*
int64_t rem2_cost_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return cost(g, q);
}
int64_t lhs_rem2_cost_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_costs(g, p); rem2(g, e); return cost(g, q);
}
//= spec::lhs_rem2_cost_after_costs ;opaque=*Graph::initializeMatrices(*
int64_t rem2_cost_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return cost(g, q);
}
std::vector<size_t> lhs_rem2_path_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_path(g, p); rem2(g, e); return path(g, q);
}
//= spec::lhs_rem2_path_after_path ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> rem2_path_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return path(g, q);
}
std::vector<size_t> lhs_rem2_path_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_cost(g, p); rem2(g, e); return path(g, q);
}
//= spec::lhs_rem2_path_after_cost ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> rem2_path_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return path(g, q);
}
std::vector<size_t> lhs_rem2_path_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_paths(g, p); rem2(g, e); return path(g, q);
}
//= spec::lhs_rem2_path_after_paths ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> rem2_path_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return path(g, q);
}
std::vector<size_t> lhs_rem2_path_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_costs(g, p); rem2(g, e); return path(g, q);
}
//= spec::lhs_rem2_path_after_costs ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> rem2_path_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return path(g, q);
}
std::vector<std::vector<int64_t>> lhs_rem2_costs_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_path(g, p); rem2(g, e); return costs(g, q);
}
//= spec::lhs_rem2_costs_after_path ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> rem2_costs_after_path(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_rem2_costs_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_cost(g, p); rem2(g, e); return costs(g, q);
}
//= spec::lhs_rem2_costs_after_cost ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> rem2_costs_after_cost(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_rem2_costs_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_paths(g, p); rem2(g, e); return costs(g, q);
}
//= spec::lhs_rem2_costs_after_paths ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> rem2_costs_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return costs(g, q);
}
std::vector<std::vector<int64_t>> lhs_rem2_costs_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_costs(g, p); rem2(g, e); return costs(g, q);
}
//= spec::lhs_rem2_costs_after_costs ;opaque=*Graph::initializeMatrices(*
std::vector<std::vector<int64_t>> rem2_costs_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return costs(g, q);
}
short_path_container_t lhs_rem2_paths_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_paths(g, p); rem2(g, e); return paths(g, q);
}
//= spec::lhs_rem2_paths_after_paths
short_path_container_t rem2_paths_after_paths(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return paths(g, q);
}
short_path_container_t lhs_rem2_paths_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  Graph g = built(es); add2(g, e); ask_costs(g, p); rem2(g, e); return paths(g, q);
}
//= spec::lhs_rem2_paths_after_costs
short_path_container_t rem2_paths_after_costs(const std::vector<Edge>& es, const Edge& e, const Q& p, const Q& q) {
  assume(es.size() > 0);
  Graph g = built(es); add2(g, e); rem2(g, e); return paths(g, q);
}

// another value for "unreachable" asks for new answers
int64_t lhs_inf_cost(const std::vector<Edge>& es, const Q& p, const Q& q, int64_t a, int64_t b) {
  Graph g = built(es); g.shortestPathCost(p.from % 4, p.to % 4, a); return g.shortestPathCost(q.from % 4, q.to % 4, b);
}
//= spec::lhs_inf_cost ;opaque=*Graph::initializeMatrices(*
int64_t inf_cost(const std::vector<Edge>& es, const Q& p, const Q& q, int64_t a, int64_t b) {
  assume(es.size() > 0);
  Graph g = built(es); return g.shortestPathCost(q.from % 4, q.to % 4, b);
}
std::vector<size_t> lhs_inf_path(const std::vector<Edge>& es, const Q& p, const Q& q, int64_t a, int64_t b) {
  Graph g = built(es); g.shortestPathCost(p.from % 4, p.to % 4, a); return g.shortestPath(q.from % 4, q.to % 4, b);
}
//= spec::lhs_inf_path ;opaque=*Graph::initializeMatrices(*
std::vector<size_t> inf_path(const std::vector<Edge>& es, const Q& p, const Q& q, int64_t a, int64_t b) {
  assume(es.size() > 0);
  Graph g = built(es); return g.shortestPath(q.from % 4, q.to % 4, b);
}
short_path_container_t lhs_again(const std::vector<Edge>& es, const Edge& e, const Q& p) {
  Graph g = built(es); g.getPaths(); add(g, e); g.shortestPathsAndCosts(); return g.getPaths();
}
//= spec::lhs_again
short_path_container_t again(const std::vector<Edge>& es, const Edge& e, const Q& p) {
  assume(es.size() > 0);
  Graph g = built(es); add(g, e); return g.getPaths();
}
// the same, asked by position
struct E2 { Point from, to; uint32_t cost; };
inline Graph2D built2(const std::vector<E2>& es) {
  Graph2D g;
  for (size_t i = 0; i < es.size(); ++i) g.addDirectedEdge(es[i].from, es[i].to, es[i].cost);
  return g;
}
}
