// Routes keep their swaths and connections in order.
#include "swath.h"
namespace spec {
struct RouteView { std::vector<std::vector<SwathView>> swaths; std::vector<std::vector<Point>> connections; };
inline std::vector<SwathView> sv(const Swaths& s) { std::vector<SwathView> r; for (size_t i = 0; i < s.size(); ++i) r.push_back(view(s.at(i))); return r; }
inline std::vector<Point> mv(const MultiPoint& m) { std::vector<Point> r; for (size_t i = 0; i < m.size(); ++i) r.push_back(m.getGeometry(i)); return r; }
inline RouteView rv(const Route& r) {
  RouteView v;
  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) v.swaths.push_back(sv(r.getSwaths(i)));
  for (size_t i = 0; i < r.sizeConnections(); ++i) v.connections.push_back(mv(r.getConnection(i)));
  return v;
}
// swaths and connections alternate, starting with a connection
inline void proper(const Route& r) { assume(r.sizeConnections() == r.sizeVectorSwaths() || r.sizeConnections() == r.sizeVectorSwaths() + 1); }
inline bool open(const RouteView& v) { return v.connections.size() > v.swaths.size(); }
inline void connect(RouteView& v) { if (!open(v)) v.connections.push_back(std::vector<Point>()); }
inline void more(RouteView& v) { if (v.connections.empty()) v.connections.push_back(std::vector<Point>()); if (open(v)) v.swaths.push_back(std::vector<SwathView>()); }
RouteView lhs_swath(Route& r, const Swath& s) { proper(r); r.addSwath(s); return rv(r); }
//= spec::lhs_swath
RouteView swath(Route& r, const Swath& s) { proper(r); RouteView v = rv(r); more(v); v.swaths.back().push_back(view(s)); return v; }
RouteView lhs_swaths_open(Route& r, const Swaths& s) { assume(r.sizeConnections() == r.sizeVectorSwaths() + 1); r.addSwaths(s); return rv(r); }
//= spec::lhs_swaths_open
RouteView swaths_open(Route& r, const Swaths& s) { assume(r.sizeConnections() == r.sizeVectorSwaths() + 1); RouteView v = rv(r); v.swaths.push_back(sv(s)); return v; }
RouteView lhs_swaths_new(const Swaths& s) { Route r; r.addSwaths(s); return rv(r); }
//= spec::lhs_swaths_new
RouteView swaths_new(const Swaths& s) { RouteView v; more(v); v.swaths.back() = sv(s); return v; }
// added to the swaths at the end: a list of swaths keeps each swath once, numbered on
RouteView lhs_swaths_more(Route& r, const Swaths& s) { assume(r.sizeConnections() > 0 && r.sizeConnections() == r.sizeVectorSwaths()); r.addSwaths(s); return rv(r); }
//= spec::lhs_swaths_more
RouteView swaths_more(Route& r, const Swaths& s) {
  assume(r.sizeConnections() > 0 && r.sizeConnections() == r.sizeVectorSwaths());
  RouteView v = rv(r);
  Swaths all = r.getSwaths(r.sizeVectorSwaths() - 1);
  all.append(s);
  v.swaths.back() = sv(all);
  return v;
}
RouteView lhs_conn(Route& r) { proper(r); r.addConnection(); return rv(r); }
//= spec::lhs_conn
RouteView conn(Route& r) { proper(r); RouteView v = rv(r); connect(v); return v; }
RouteView lhs_conn_p(Route& r, const Point& p) { proper(r); r.addConnection(p); return rv(r); }
//= spec::lhs_conn_p
RouteView conn_p(Route& r, const Point& p) { proper(r); RouteView v = rv(r); connect(v); v.connections.back().push_back(p); return v; }
RouteView lhs_conn_m(Route& r, const MultiPoint& m) { proper(r); r.addConnection(m); return rv(r); }
//= spec::lhs_conn_m
RouteView conn_m(Route& r, const MultiPoint& m) {
  proper(r);
  RouteView v = rv(r);
  connect(v);
  for (size_t i = 0; i < m.size(); ++i) v.connections.back().push_back(m.getGeometry(i));
  return v;
}
RouteView lhs_conn_v(Route& r, const std::vector<Point>& m) { proper(r); r.addConnection(m); return rv(r); }
//= spec::lhs_conn_v
RouteView conn_v(Route& r, const std::vector<Point>& m) {
  proper(r);
  RouteView v = rv(r);
  connect(v);
  for (size_t i = 0; i < m.size(); ++i) v.connections.back().push_back(m[i]);
  return v;
}
RouteView lhs_connected(Route& r, const MultiPoint& m, const Swaths& s) { assume(r.sizeConnections() == r.sizeVectorSwaths()); r.addConnectedSwaths(m, s); return rv(r); }
//= spec::lhs_connected
RouteView connected(Route& r, const MultiPoint& m, const Swaths& s) {
  assume(r.sizeConnections() == r.sizeVectorSwaths());
  RouteView v = rv(r);
  v.connections.push_back(mv(m));
  v.swaths.push_back(sv(s));
  return v;
}
RouteView lhs_graph(Route& r, const Swath& s, Graph2D& g) { proper(r); assume(r.sizeConnections() > 0); r.addSwath(s, g); return rv(r); }
//= spec::lhs_graph ;opaque=*Graph2D::shortestPath(const f2c::types::Point*
RouteView graph(Route& r, const Swath& s, Graph2D& g) {
  proper(r); assume(r.sizeConnections() > 0);
  RouteView v = rv(r);
  std::vector<Point> w = g.shortestPath(r.endPoint(), s.startPoint());
  connect(v);
  for (size_t i = 0; i < w.size(); ++i) v.connections.back().push_back(w[i]);
  v.swaths.push_back(std::vector<SwathView>());
  v.swaths.back().push_back(view(s));
  return v;
}
RouteView lhs_graph0(const Swath& s, Graph2D& g) { Route r; r.addSwath(s, g); return rv(r); }
//= spec::lhs_graph0 ;opaque=*Graph2D::shortestPath(const f2c::types::Point*
RouteView graph0(const Swath& s, Graph2D& g) { RouteView v; more(v); v.swaths.back().push_back(view(s)); return v; }
// what was set is read
RouteView lhs_set(Route& r, size_t i, const Swaths& s) { assume(i < r.sizeVectorSwaths()); r.setSwaths(i, s); return rv(r); }
//= spec::lhs_set
RouteView set(Route& r, size_t i, const Swaths& s) { assume(i < r.sizeVectorSwaths()); RouteView v = rv(r); v.swaths[i] = sv(s); return v; }
RouteView lhs_setc(Route& r, size_t i, const MultiPoint& s) { assume(i < r.sizeConnections()); r.setConnection(i, s); return rv(r); }
//= spec::lhs_setc
RouteView setc(Route& r, size_t i, const MultiPoint& s) { assume(i < r.sizeConnections()); RouteView v = rv(r); v.connections[i] = mv(s); return v; }
std::vector<SwathView> lhs_last(const Route& r) { assume(r.sizeVectorSwaths() > 0); return sv(r.getLastSwaths()); }
//= spec::lhs_last
std::vector<SwathView> last(const Route& r) { assume(r.sizeVectorSwaths() > 0); return sv(r.getSwaths(r.sizeVectorSwaths() - 1)); }
std::vector<Point> lhs_lastc(const Route& r) { assume(r.sizeConnections() > 0); return mv(r.getLastConnection()); }
//= spec::lhs_lastc
std::vector<Point> lastc(const Route& r) { assume(r.sizeConnections() > 0); return mv(r.getConnection(r.sizeConnections() - 1)); }
std::vector<SwathView> lhs_last_m(Route& r) { assume(r.sizeVectorSwaths() > 0); return sv(r.getLastSwaths()); }
//= spec::lhs_last_m
std::vector<SwathView> last_m(Route& r) { assume(r.sizeVectorSwaths() > 0); return sv(r.getSwaths(r.sizeVectorSwaths() - 1)); }
std::vector<Point> lhs_lastc_m(Route& r) { assume(r.sizeConnections() > 0); return mv(r.getLastConnection()); }
//= spec::lhs_lastc_m
std::vector<Point> lastc_m(Route& r) { assume(r.sizeConnections() > 0); return mv(r.getConnection(r.sizeConnections() - 1)); }
bool lhs_empty(const Route& r) { return r.isEmpty(); }
//= spec::lhs_empty
bool empty(const Route& r) { return r.sizeVectorSwaths() == 0 && r.sizeConnections() == 0; }
RouteView lhs_copy(const Route& r) { return rv(r.clone()); }
//= spec::lhs_copy
RouteView copy(const Route& r) { return rv(r); }
// the line that is driven: connections and swaths in turn
inline LineString driven(const Route& r) {
  LineString l;
  RouteView v = rv(r);
  for (size_t i = 0; i < v.connections.size(); ++i) {
    for (size_t j = 0; j < v.connections[i].size(); ++j) { const Point& p = v.connections[i][j]; l.get()->addPoint(px(p), py(p), pz(p)); }
    if (i < v.swaths.size())
      for (size_t j = 0; j < v.swaths[i].size(); ++j) {
        const LineString& s = v.swaths[i][j].path;
        for (size_t k = 0; k < n_points(s.get()); ++k) l.get()->addPoint(s->getX(k), s->getY(k), s->getZ(k));
      }
  }
  return l;
}
LineString lhs_line(const Route& r) { proper(r); return r.asLineString(); }
//= spec::lhs_line
LineString line(const Route& r) { proper(r); return driven(r); }
double lhs_length(const Route& r) { proper(r); return r.length(); }
//= spec::lhs_length
double length(const Route& r) { proper(r); return driven(r)->get_Length(); }
inline void ends(const Route& r) {
  proper(r);
  for (size_t i = 0; i < r.sizeVectorSwaths(); ++i) {
    assume(r.getSwaths(i).size() > 0);
    for (size_t j = 0; j < r.getSwaths(i).size(); ++j) assume(n_points(r.getSwaths(i).at(j).getPath().get()) > 0);
  }
  assume(r.sizeVectorSwaths() > 0 || r.sizeConnections() > 0 && r.getConnection(0).size() > 0);
}
Point lhs_start(const Route& r) { ends(r); return r.startPoint(); }
//= spec::lhs_start
Point start(const Route& r) { ends(r); return r.getConnection(0).size() > 0 ? r.getConnection(0).getGeometry(0) : r.getSwaths(0).at(0).startPoint(); }
Point lhs_end(const Route& r) { ends(r); return r.endPoint(); }
//= spec::lhs_end
Point end(const Route& r) {
  ends(r);
  size_t n = r.sizeVectorSwaths();
  if (r.sizeConnections() > n && r.getConnection(n).size() > 0) return r.getConnection(n).getGeometry(r.getConnection(n).size() - 1);
  return r.getSwaths(n - 1).at(r.getSwaths(n - 1).size() - 1).endPoint();
}
Point lhs_nostart() { Route r; return r.startPoint(); }
//= spec::lhs_nostart
Point nostart() { return Point(); }
Point lhs_noend() { Route r; return r.endPoint(); }
//= spec::lhs_noend
Point noend() { return Point(); }
}
