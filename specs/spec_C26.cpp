// Planned routes: the graph of the headlands, the graph of what is left to cover, and the route along the order found.
#include "raw.h"
#include "fields2cover/route_planning/route_planner_base.h"
namespace spec {
typedef f2c::rp::RoutePlannerBase Planner;
typedef F2CGraph2D Graph;
//= f2c::rp::RoutePlannerBase::setStartAndEndPoint(**)
void start(Planner& self, const F2CPoint& p) { self.r_start_end = p; }
//= f2c::rp::RoutePlannerBase::createShortestGraph(**) const ;whole=f2c::types::Point|f2c::types::LineString|f2c::types::Graph|f2c::types::Graph2D ;opaque=*Swath::startPoint(*|*Swath::endPoint(*|*closestPointOnBorderTo(*|*::distance*
Graph headlands(const Planner& self, const F2CCells& cells, const F2CSwathsByCells& all, double tol) {
  Graph g;
  for (size_t c = 0; c < all.size(); ++c)
    for (size_t i = 0; i < all.data_[c].size(); ++i) {
      F2CPoint a = all.data_[c][i].startPoint(), b = all.data_[c][i].endPoint();
      g.addEdge(a, cells.closestPointOnBorderTo(a));
      g.addEdge(b, cells.closestPointOnBorderTo(b));
    }
  for (size_t c = 0; c < cells.size(); ++c)
    for (size_t r = 0; r < cells.getGeometry(c).size(); ++r)
      for (size_t i = 0; i + 1 < cells.getGeometry(c).getGeometry(r).size(); ++i)
        g.addEdge(cells.getGeometry(c).getGeometry(r).getGeometry(i), cells.getGeometry(c).getGeometry(r).getGeometry(i + 1));
  if (self.r_start_end) g.addEdge(*self.r_start_end, cells.closestPointOnBorderTo(*self.r_start_end));
  std::vector<F2CPoint> nodes = g.getNodes();
  for (int pass = 0; pass < 2; ++pass) {
    auto edges = g.getEdges();
    for (auto& from : edges)
      for (auto& to : from.second) {
        F2CLineString line{g.indexToNode(from.first), g.indexToNode(to.first)};
        for (size_t i = 0; i < nodes.size(); ++i)
          if (nodes[i] != line[0] && nodes[i] != line[1] && nodes[i].distance(line) < tol) {
            g.addEdge(line[0], nodes[i]);
            g.addEdge(nodes[i], line[1]);
            g.removeEdge(line[0], line[1]);
          }
      }
  }
  return g;
}
//= f2c::rp::RoutePlannerBase::createCoverageGraph(**) const ;whole=f2c::types::Graph|f2c::types::Graph2D ;opaque=*Swath::startPoint(*|*Swath::endPoint(*
Graph tasks(const Planner& self, const F2CCells& cells, const F2CSwathsByCells& all, Graph& paths, double tol, bool turn) {
  Graph g;
  for (size_t c = 0; c < all.size(); ++c)
    for (size_t i = 0; i < all.data_[c].size(); ++i) {
      F2CPoint a = all.data_[c][i].startPoint(), b = all.data_[c][i].endPoint(), m = (a + b) * 0.5;
      if (turn) { g.addEdge(a, m, 0); g.addEdge(b, m, 0); } else { g.addDirectedEdge(a, m, 0); g.addDirectedEdge(m, b, 0); }
    }
  for (size_t c = 0; c < all.size(); ++c)
    for (size_t i = 0; i < all.data_[c].size(); ++i)
      for (size_t d = 0; d < all.size(); ++d)
        for (size_t j = 0; j < all.data_[d].size(); ++j) {
          F2CPoint a = all.data_[c][i].startPoint(), b = all.data_[c][i].endPoint(), s = all.data_[d][j].startPoint(), e = all.data_[d][j].endPoint();
          if (turn) { g.addEdge(a, s, paths); g.addEdge(b, e, paths); g.addEdge(a, e, paths); g.addEdge(b, s, paths); }
          else g.addDirectedEdge(b, s, paths);
        }
  F2CPoint depot = self.r_start_end ? *self.r_start_end : F2CPoint(-1e8, -1e8);
  for (size_t c = 0; c < all.size(); ++c)
    for (size_t i = 0; i < all.data_[c].size(); ++i) {
      F2CPoint a = all.data_[c][i].startPoint(), b = all.data_[c][i].endPoint();
      if (self.r_start_end) { g.addEdge(a, depot, paths); g.addEdge(b, depot, paths); } else { g.addEdge(a, depot, 0); g.addEdge(b, depot, 0); }
    }
  return g;
}
//= f2c::rp::RoutePlannerBase::genRoute(**) ;opaque=f2c::rp::RoutePlannerBase::create*|f2c::rp::RoutePlannerBase::compute*|f2c::rp::RoutePlannerBase::transform*
F2CRoute route(Planner& self, const F2CCells& cells, const F2CSwathsByCells& all, bool log, double tol, bool turn, long limit, bool best) {
  Graph g = self.createShortestGraph(cells, all, tol);
  Graph t = self.createCoverageGraph(cells, all, g, tol, turn);
  return self.transformSolutionToRoute(self.computeBestRoute(t, log, limit, best), all, t, g);
}
//= f2c::rp::RoutePlannerBase::transformSolutionToRoute(**) const ;whole=f2c::types::Graph|f2c::types::Graph2D|f2c::types::Route|f2c::types::Swath|f2c::types::Point ;opaque=*SwathsByCells::getSwath(*|*sizeTotal(*|*Swath::clone(*|*Swath::reverse(*
F2CRoute along(const Planner& self, const std::vector<long long>& ids, const F2CSwathsByCells& all, const Graph& tasks, Graph& paths) {
  F2CRoute out;
  for (size_t i = 0; i + 2 < ids.size(); ++i) {
    F2CPoint from = tasks.indexToNode(ids[i]), to = tasks.indexToNode(ids[i + 2]);
    for (size_t j = 0; j < all.sizeTotal(); ++j) {
      F2CSwath s = all.getSwath(j).clone();
      bool along = from == s.startPoint() && to == s.endPoint(), against = to == s.startPoint() && from == s.endPoint();
      if (!along && !against) continue;
      if (!along) s.reverse();
      if (out.isEmpty() && self.r_start_end) out.addConnection(paths.shortestPath(*self.r_start_end, s.startPoint()));
      out.addSwath(s, paths);
      break;
    }
  }
  if (self.r_start_end) out.addConnection(paths.shortestPath(out.endPoint(), *self.r_start_end));
  return out;
}
}
