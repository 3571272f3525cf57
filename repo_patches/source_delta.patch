From 99aaae2d599d34991061771629b16fae6c23c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 01/36] fix: close the ring added to a cell of a collection

---
 src/fields2cover/types/Cells.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index dd2bc96..daf941d 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -129,7 +129,7 @@ void Cells::addGeometry(const Cell& c) {
 
 void Cells::addRing(size_t i, const LinearRing& ring) {
   downCast<OGRPolygon*>(this->data_->getGeometryRef(i))->addRing(
-      ring.clone().get());
+      ring.clone().closeRing().get());
 }
 
 size_t Cells::size() const {
-- 
2.43.0


From 9aa64eeb9d6439cf788cd6bb34a36b3f5a6af609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 02/36] fix: clone geometries exactly instead of through
 rounded text

---
 include/fields2cover/types/Geometries_impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 01e2ff6..2abc3fa 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -17,9 +17,7 @@ double Geometries<SAMETYPE, T, R, CHILDRENTYPE>::area() const {
 
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::clone() const {
-  SAMETYPE cloned;
-  cloned.importFromWkt(this->exportToWkt());
-  return cloned;
+  return SAMETYPE(static_cast<const T&>(*this->data_));
 }
 
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
-- 
2.43.0


From a39dd4db3e76d46258b4417186ef9a3f63b91d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 03/36] fix: keep the type of a swath, and any width, when it
 is cloned

---
 src/fields2cover/types/Swath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 8c6929f..d5284a9 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,8 +115,8 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_};
-  new_s.setCreationDir(this->getCreationDir());
+  Swath new_s {*this};
+  new_s.path_ = this->path_.clone();
   return new_s;
 }
 
-- 
2.43.0


From 7b81dc3f4a3e9efde42412648e57c9180628a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 04/36] fix: keep the previous coordinate system and the
 reference point of a cloned field

---
 src/fields2cover/types/Field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 95b32ee..aab21eb 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -74,8 +74,8 @@ void Field::setField(const Cells& _field) {
 }
 
 Field Field::clone() const {
-  Field new_field {this->field_ + this->ref_point_, this->id_};
-  new_field.coord_sys_ = this->coord_sys_;
+  Field new_field {*this};
+  new_field.field_ = this->field_.clone();
   return new_field;
 }
 
-- 
2.43.0


From e01d718abfe12d6a6127b6fd5e32a54a1d78d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 05/36] fix: write back small changes made through an iterator

---
 include/fields2cover/types/Geometries_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 2abc3fa..20ca1f1 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -46,7 +46,7 @@ void Geometries<SAMETYPE, T, R, CHILDRENTYPE>::Iterator::update() {
       CHILDRENTYPE oChildBefore;
       static_cast<SAMETYPE*>(m_poPrivate->m_poSelf)->getGeometry(
         m_poPrivate->m_nPos, oChildBefore);
-      if (oChildBefore != m_poPrivate->m_oChild) {
+      if (!oChildBefore->Equals(m_poPrivate->m_oChild.get())) {
           static_cast<SAMETYPE*>(m_poPrivate->m_poSelf)->setGeometry(
              m_poPrivate->m_nPos, m_poPrivate->m_oChild);
       }
-- 
2.43.0


From cb0c02985b0e4b61eecd1e02ffc1d24e66fb0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 06/36] fix: look at the closing corner when deciding whether a
 cell is convex

---
 src/fields2cover/types/Cell.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e82add0..e12c493 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -146,14 +146,15 @@ bool Cell::isConvex() const {
   if (border.size() < 2) {
     return false;
   }
-  auto getAng = [&border] (size_t i) {
+  const size_t n = border.size() - 1;
+  auto getAng = [&border, n] (size_t i) {
     return Point::getAngleFromPoints(
         border.getGeometry(i),
-        border.getGeometry(i + 1),
-        border.getGeometry(i + 2));
+        border.getGeometry((i + 1) % n),
+        border.getGeometry((i + 2) % n));
   };
   bool inv = M_PI > getAng(0);
-  for (size_t i = 1; i < border.size() - 2; ++i) {
+  for (size_t i = 1; i < n; ++i) {
     if (inv != (getAng(i) < M_PI)) {
       return false;
     }
-- 
2.43.0


From 788be4f25c8229dbdb1e92826cc8e193e204a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 07/36] fix: closest point of lines and cells too short to have
 a segment

---
 src/fields2cover/types/Cell.cpp       | 4 ++++
 src/fields2cover/types/Cells.cpp      | 4 ++++
 src/fields2cover/types/LineString.cpp | 3 +++
 src/fields2cover/types/LinearRing.cpp | 3 +++
 4 files changed, 14 insertions(+)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e12c493..a2529fe 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -209,6 +209,10 @@ LineString Cell::createLineUntilBorder(
 }
 
 Point Cell::closestPointOnBorderTo(const Point& p) const {
+  if (this->isEmpty()) {
+    throw std::out_of_range(
+        "Error closestPointOnBorderTo: Cell is empty");
+  }
   std::vector<double> dist;
   std::vector<Point> ps;
   for (auto&& ring : *this) {
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index daf941d..85a285a 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -244,6 +244,10 @@ Cells Cells::buffer(double width) const {
 }
 
 Point Cells::closestPointOnBorderTo(const Point& p) const {
+  if (this->isEmpty()) {
+    throw std::out_of_range(
+        "Error closestPointOnBorderTo: Cells is empty");
+  }
   std::vector<double> dist;
   std::vector<Point> ps;
   for (auto&& cell : *this) {
diff --git a/src/fields2cover/types/LineString.cpp b/src/fields2cover/types/LineString.cpp
index 489515b..449609c 100644
--- a/src/fields2cover/types/LineString.cpp
+++ b/src/fields2cover/types/LineString.cpp
@@ -128,6 +128,9 @@ double LineString::endAngle() const {
 }
 
 Point LineString::closestPointTo(const Point& p) const {
+  if (this->size() < 2) {
+    return this->startPoint();
+  }
   std::vector<double> dist;
   std::vector<Point> ps;
   for (size_t i = 0; i < this->size() - 1; ++i) {
diff --git a/src/fields2cover/types/LinearRing.cpp b/src/fields2cover/types/LinearRing.cpp
index 13db3a5..1612fc6 100644
--- a/src/fields2cover/types/LinearRing.cpp
+++ b/src/fields2cover/types/LinearRing.cpp
@@ -134,6 +134,9 @@ LinearRing& LinearRing::closeRing() {
 }
 
 Point LinearRing::closestPointTo(const Point& p) const {
+  if (this->size() < 2) {
+    return this->startPoint();
+  }
   std::vector<double> dist;
   std::vector<Point> ps;
   for (size_t i = 0; i < this->size() - 1; ++i) {
-- 
2.43.0


From 16321b1bb38e8d67eab95d838936d1c9ec071d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 08/36] fix: leave a single swath as it is when ordering like a
 snake

---
 src/fields2cover/route_planning/snake_order.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/route_planning/snake_order.cpp b/src/fields2cover/route_planning/snake_order.cpp
index 45e8f3c..0cdd281 100644
--- a/src/fields2cover/route_planning/snake_order.cpp
+++ b/src/fields2cover/route_planning/snake_order.cpp
@@ -9,6 +9,9 @@
 namespace f2c::rp {
 
 void SnakeOrder::sortSwaths(F2CSwaths& swaths) const {
+  if (swaths.size() < 2) {
+    return;
+  }
   size_t i;
   for (i = 1; i < (swaths.size() - 1) / 2 + 1; ++i) {
     std::rotate(swaths.begin() + i, swaths.begin() + i + 1, swaths.end());
-- 
2.43.0


From c76e8fa6cc16b66c7a7909361c852fa3b1b1c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 09/36] fix: do not divide by a spiral size of zero

---
 src/fields2cover/route_planning/spiral_order.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/spiral_order.cpp b/src/fields2cover/route_planning/spiral_order.cpp
index bc474d2..78a6300 100644
--- a/src/fields2cover/route_planning/spiral_order.cpp
+++ b/src/fields2cover/route_planning/spiral_order.cpp
@@ -10,7 +10,7 @@ SpiralOrder::SpiralOrder(size_t sp_size) {
 SpiralOrder::~SpiralOrder() = default;
 
 void SpiralOrder::setSpiralSize(size_t sp_size) {
-  this->spiral_size = sp_size;
+  this->spiral_size = std::max<size_t>(1, sp_size);
 }
 
 void SpiralOrder::sortSwaths(F2CSwaths& swaths) const {
-- 
2.43.0


From f595d1f8fbf32e9fd57bf9e84da5918d2186eb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 10/36] fix: forget the shortest paths of a graph when an edge
 is removed

---
 src/fields2cover/types/Graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f840669..32114b2 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -30,6 +30,9 @@ Graph& Graph::removeDirectedEdge(size_t from, size_t to) {
     return *this;
   }
   this->edges_.at(from).erase(to);
+  this->next_.clear();
+  this->distance_.clear();
+  this->shortest_paths_.clear();
   return *this;
 }
 Graph& Graph::removeEdge(size_t i, size_t j) {
-- 
2.43.0


From 31498a1087d42b465a9672f724474d4adc011bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 11/36] fix: size the matrices of a graph to hold every node

---
 include/fields2cover/types/Graph.h |  3 +++
 src/fields2cover/types/Graph.cpp   | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index f50b56d..bebad24 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -63,6 +63,9 @@ class Graph {
         int64_t INF = 1e15);
 
  protected:
+  /// Number of indexes up to the largest node index
+  size_t numIndexes() const;
+
   void DFS(size_t from, size_t to,
     std::vector<std::vector<size_t>>& routes,
     std::vector<bool>& visited,
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index 32114b2..b8ee1eb 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -12,6 +12,7 @@ namespace f2c::types {
 
 Graph& Graph::addDirectedEdge(size_t from, size_t to, int64_t cost) {
   this->edges_[from][to] =  cost;
+  this->edges_[to];  // Nodes without outgoing edges are nodes too
   if (!this->next_.empty() || !this->distance_.empty()) {
     this->next_.clear();
     this->distance_.clear();
@@ -43,6 +44,14 @@ size_t Graph::numNodes() const {
   return this->edges_.size();
 }
 
+size_t Graph::numIndexes() const {
+  size_t n {0};
+  for (auto&& e : this->edges_) {
+    n = std::max(n, e.first + 1);
+  }
+  return n;
+}
+
 size_t Graph::numEdges() const {
   return std::accumulate(this->edges_.begin(), this->edges_.end(), 0,
       [](int sum, const auto& e) {return sum + e.second.size();});
@@ -72,7 +81,7 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
 
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numNodes(), false);
+  std::vector<bool> visited(this->numIndexes(), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -103,7 +112,7 @@ void Graph::DFS(
 }
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
-  const size_t N = this->numNodes();
+  const size_t N = this->numIndexes();
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -114,7 +123,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
     std::vector<std::vector<int64_t>>& next,
     int64_t INF) {
 
-  const size_t N = this->numNodes();
+  const size_t N = this->numIndexes();
 
   // Initialize distances and paths for direct connections
   for (const auto& src : this->edges_) {
@@ -167,7 +176,7 @@ short_path_container_t& Graph::getPaths() {
     this->shortestPathsAndCosts();
   }
   if (shortest_paths_.empty()) {
-    const size_t N = this->numNodes();
+    const size_t N = this->numIndexes();
     shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From 6e039a1a69e45b4d976ca5436e1f244a471a21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 12/36] fix: report nodes that are not in a graph as
 unreachable

---
 src/fields2cover/types/Graph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index b8ee1eb..1273bdb 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -81,7 +81,7 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
 
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numIndexes(), false);
+  std::vector<bool> visited(std::max(this->numIndexes(), from + 1), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -204,7 +204,8 @@ std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
 
 std::vector<size_t> Graph::reconstructPath(size_t from,
     size_t to, std::vector<std::vector<int64_t>>& next) const {
-  if (from != to && next[from][to] != -1) {
+  if (from < next.size() && to < next.size() &&
+      from != to && next[from][to] != -1) {
     std::vector<size_t> path = {from};
     size_t current = from;
     while (current != to) {
@@ -221,6 +222,9 @@ int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
   if (this->numNodes() > 0 && this->distance_.size() == 0) {
     this->shortestPathsAndCosts(INF);
   }
+  if (from >= this->distance_.size() || to >= this->distance_.size()) {
+    return INF;
+  }
   return this->distance_[from][to];
 }
 
-- 
2.43.0


From fbab4c0b02bbbc557d2f6299749fbdb3288a3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 13/36] fix: compute the shortest paths again when another
 infinity is asked for

---
 include/fields2cover/types/Graph.h | 1 +
 src/fields2cover/types/Graph.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index bebad24..75a4f2f 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -76,6 +76,7 @@ class Graph {
   short_path_container_t shortest_paths_;       // sequence of nodes
   std::vector<std::vector<int64_t>> distance_;  // costs of shortest paths
   std::vector<std::vector<int64_t>> next_;
+  int64_t inf_ {0};  // cost of unreachable nodes in distance_
 };
 
 }  // namespace f2c::types
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index 1273bdb..d7acde8 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -113,6 +113,8 @@ void Graph::DFS(
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
   const size_t N = this->numIndexes();
+  this->inf_ = INF;
+  this->shortest_paths_.clear();
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -196,7 +198,8 @@ short_path_container_t& Graph::getPaths() {
 }
 
 std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
-  if (this->numNodes() > 0 && (this->next_.empty() || this->distance_.empty())) {
+  if (this->numNodes() > 0 && (this->next_.empty() ||
+      this->distance_.empty() || this->inf_ != INF)) {
     this->shortestPathsAndCosts(INF);
   }
   return this->reconstructPath(from, to, next_);
@@ -219,7 +222,8 @@ std::vector<size_t> Graph::reconstructPath(size_t from,
 }
 
 int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
-  if (this->numNodes() > 0 && this->distance_.size() == 0) {
+  if (this->numNodes() > 0 &&
+      (this->distance_.size() == 0 || this->inf_ != INF)) {
     this->shortestPathsAndCosts(INF);
   }
   if (from >= this->distance_.size() || to >= this->distance_.size()) {
-- 
2.43.0


From 25ae29a1ed2ebe33cb63726bb0107dc7d892c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 14/36] fix: ignore the sign of the curvatures given to the
 constructor of a robot

---
 src/fields2cover/types/Robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Robot.cpp b/src/fields2cover/types/Robot.cpp
index 6836ac6..e38f2dd 100644
--- a/src/fields2cover/types/Robot.cpp
+++ b/src/fields2cover/types/Robot.cpp
@@ -12,7 +12,7 @@ namespace f2c::types {
 Robot::Robot(double width, double cov_width,
     double max_curv, double max_diff_curv) :
       width_(width), cov_width_(cov_width),
-      max_icc_(max_curv), linear_curv_change_(max_diff_curv) {
+      max_icc_(fabs(max_curv)), linear_curv_change_(fabs(max_diff_curv)) {
   if (width <= 0.0 || cov_width < 0.0) {
     throw std::out_of_range("Robot widths have to be greater than 0.");
   }
-- 
2.43.0


From 813f83aa4576b89e96448e0ab36d39acf090bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 15/36] fix: Field::getUTMZone and getUTMHemisphere understand
 zones of one digit and missing zones

---
 src/fields2cover/types/Field.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index aab21eb..f5ceb7f 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -162,7 +162,8 @@ Cells Field::getCellsAbsPosition() const {
 }
 
 std::string Field::getUTMZone(const std::string& coord_sys) {
-  return getUTMCoordSystem(coord_sys).substr(0, 2);
+  std::string utm {getUTMCoordSystem(coord_sys)};
+  return utm.substr(0, utm.find_first_not_of("0123456789"));
 }
 
 std::string Field::getUTMZone() const {
@@ -170,7 +171,8 @@ std::string Field::getUTMZone() const {
 }
 
 std::string Field::getUTMHemisphere(const std::string& coord_sys) {
-  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(2, 1)};
+  std::string utm {getUTMCoordSystem(coord_sys)};
+  std::string hemisphere {utm.substr(getUTMZone(coord_sys).size())};
   if (hemisphere == "n" || hemisphere == "N") {
     return "+north";
   } else if (hemisphere == "s" || hemisphere == "S") {
-- 
2.43.0


From 3709abcb64ff32bb4130aec697a78d2848424ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 16/36] fix: Transform keeps type and creation direction of
 swaths

---
 src/fields2cover/utils/transformation.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index d6897c5..2a23c93 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -87,9 +87,10 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
 
 F2CSwath Transform::transformSwathWithFieldRef(const F2CSwath& swath,
       const F2CField& field, const std::string& coord_sys_to) {
-  return F2CSwath(transform(
-        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to),
-      swath.getWidth(), swath.getId());
+  auto new_swath = swath.clone();
+  new_swath.setPath(transform(
+        swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to));
+  return new_swath;
 }
 
 F2CSwaths Transform::transformSwathsWithFieldRef(const F2CSwaths& swaths,
@@ -132,8 +133,9 @@ F2CSwaths Transform::transformSwaths(const F2CSwaths& swaths,
 
 F2CSwath Transform::transformSwath(const F2CSwath& swath,
       const std::string& coord_sys_from, const std::string& coord_sys_to) {
-  return F2CSwath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
-                   swath.getWidth(), swath.getId());
+  auto new_swath = swath.clone();
+  new_swath.setPath(transform(swath.getPath(), coord_sys_from, coord_sys_to));
+  return new_swath;
 }
 
 F2CPath Transform::transformPath(const F2CPath& path,
-- 
2.43.0


From ff6834224124634ab661a45eebbc02200c6908cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 17/36] fix: Field::getEPSGCoordSystem reads the code that
 follows the prefix isCoordSystemEPSG looks for

---
 src/fields2cover/types/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index f5ceb7f..4092630 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -133,7 +133,7 @@ bool Field::isCoordSystemEPSG() const {
 
 int Field::getEPSGCoordSystem(const std::string& coord_sys) {
   return isCoordSystemEPSG(coord_sys) ?
-    std::stoi(coord_sys.substr(5)) : -1;
+    std::stoi(coord_sys.substr(coord_sys.find("EPSG:") + 5)) : -1;
 }
 
 int Field::getEPSGCoordSystem() const {
-- 
2.43.0


From 7b28ce7e3962d2950f635de8dc83ffa9809cc351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 18/36] fix: Graph never follows a way that is not shorter than
 infinity, whose path ran out of the matrix

---
 src/fields2cover/types/Graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index d7acde8..fa61d08 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -143,7 +143,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
       for (size_t j = 0; j < N; ++j) {
         if (dist[i][k] < INF && \
             dist[k][j] < INF && \
-            dist[i][j] > dist[i][k] + dist[k][j]) {
+            dist[i][k] + dist[k][j] < std::min(dist[i][j], INF)) {
             dist[i][j] = dist[i][k] + dist[k][j];
             next[i][j] = next[i][k];
         }
-- 
2.43.0


From fdbacd5abd6881985093eb702b73f895530879a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 19/36] fix: NSwathModified takes the neighbour of the first
 point of a ring from its end

---
 src/fields2cover/objectives/sg_obj/n_swath_modified.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
index e468216..98e2ffa 100644
--- a/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
+++ b/src/fields2cover/objectives/sg_obj/n_swath_modified.cpp
@@ -17,7 +17,7 @@ double NSwathModified::computeCost(
   for (auto&& ring : cell) {
     for (size_t i = 0; i < ring.size(); ++i) {
       auto p = ring.getGeometry(i);
-      auto p_1 = ring.getGeometry((i - 1) % ring.size());
+      auto p_1 = ring.getGeometry((i + ring.size() - 1) % ring.size());
       n_turns += p.distance(p_1) *
         fabs(sin(ang - (p - p_1).getAngleFromPoint()));
     }
-- 
2.43.0


From 7cafcb9e51141da5172fe60f1d5671ca44e44230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 20/36] fix: FieldCoverage of no swaths is zero instead of
 reading the first of none

---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index f29b834..96190f3 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -15,6 +15,9 @@ double FieldCoverage::computeCost(
 
 double FieldCoverage::computeCost(
     const F2CCells& poly, const F2CSwaths& swaths) {
+  if (swaths.size() == 0) {
+    return 0.0;
+  }
   F2CMultiLineString lines;
   for (const auto& s : swaths) {
     lines.addGeometry(s.getPath());
-- 
2.43.0


From 303af6f7f9663fdc2d9644e6b8d20ac24e4b5a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 21/36] fix: Overlaps counts every pair of swaths, not only
 those of the first and last ones

---
 src/fields2cover/objectives/sg_obj/overlaps.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/objectives/sg_obj/overlaps.cpp b/src/fields2cover/objectives/sg_obj/overlaps.cpp
index 5349cdb..4d452d3 100644
--- a/src/fields2cover/objectives/sg_obj/overlaps.cpp
+++ b/src/fields2cover/objectives/sg_obj/overlaps.cpp
@@ -15,9 +15,9 @@ double Overlaps::computeCost(const F2CCell& poly, const F2CSwaths& swaths) {
 double Overlaps::computeCost(const F2CCells& poly, const F2CSwaths& swaths) {
   double area_overlaped {0.0};
   std::vector<F2CCells> areas;
-  for (int i = swaths.size() - 1; i >= 0; --i) {
+  for (size_t i = 0; i < swaths.size(); ++i) {
     areas.emplace_back(swaths[i].areaCovered(poly));
-    for (int j = i + 1; j < areas.size(); ++j) {
+    for (size_t j = 0; j < i; ++j) {
       if (areas[i].intersects(areas[j])) {
         area_overlaped += F2CCells(areas[i]).intersection(areas[j]).area();
       }
-- 
2.43.0


From 65feb16772021be4c8a4d78402f30f7f57eda9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 22/36] fix: route costs of no swaths are zero instead of
 reading the first or last of none

---
 src/fields2cover/objectives/rp_obj/rp_objective.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/objectives/rp_obj/rp_objective.cpp b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
index fb06c83..0daee27 100644
--- a/src/fields2cover/objectives/rp_obj/rp_objective.cpp
+++ b/src/fields2cover/objectives/rp_obj/rp_objective.cpp
@@ -79,7 +79,7 @@ double RPObjective::computeCost(const F2CSwath& s, const F2CMultiPoint& ps) {
 }
 
 double RPObjective::computeCost(const F2CSwaths& s, const F2CMultiPoint& ps) {
-  if (ps.isEmpty()) {
+  if (s.size() == 0 || ps.isEmpty()) {
     return 0.0;
   }
   return computeCost(s.back(), ps);
@@ -94,6 +94,9 @@ double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwath& s) {
 }
 
 double RPObjective::computeCost(const F2CMultiPoint& ps, const F2CSwaths& s) {
+  if (s.size() == 0) {
+    return 0.0;
+  }
   return computeCost(ps, s[0]);
 }
 
-- 
2.43.0


From 2b53b41c50853b669154033eb021303c6d7953ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 23/36] fix: no headland swaths are generated when none are
 asked for

---
 src/fields2cover/headland_generator/constant_headland.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/headland_generator/constant_headland.cpp b/src/fields2cover/headland_generator/constant_headland.cpp
index a129ae9..93746e5 100644
--- a/src/fields2cover/headland_generator/constant_headland.cpp
+++ b/src/fields2cover/headland_generator/constant_headland.cpp
@@ -22,6 +22,9 @@ F2CCells ConstHL::generateHeadlandArea(
 std::vector<F2CCells> ConstHL::generateHeadlandSwaths(
     const F2CCells& field, double swath_width, int n_swaths, bool dir_out2in) {
   std::vector<F2CCells> hl;
+  if (n_swaths < 1) {
+    return hl;
+  }
   if (dir_out2in) {
     for (int i = 0; i < n_swaths; ++i) {
       hl.emplace_back(field.buffer(-swath_width * (i + 0.5)));
-- 
2.43.0


From 7b8d325b937cfb03e5e4d0791a4ea60eff3ef940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 24/36] fix: the search of the best angle tries at least one
 angle

---
 src/fields2cover/swath_generator/brute_force.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/swath_generator/brute_force.cpp b/src/fields2cover/swath_generator/brute_force.cpp
index 78ceb0f..36fd59d 100644
--- a/src/fields2cover/swath_generator/brute_force.cpp
+++ b/src/fields2cover/swath_generator/brute_force.cpp
@@ -25,8 +25,8 @@ void BruteForce::setStepAngle(double d) {
 
 double BruteForce::computeBestAngle(f2c::obj::SGObjective& obj,
     double op_width, const F2CCell& poly) {
-  int n = static_cast<int>(
-      boost::math::constants::two_pi<double>() / step_angle);
+  int n = std::max(1, static_cast<int>(
+      boost::math::constants::two_pi<double>() / step_angle));
   std::vector<double> costs(n);
   std::vector<int> ids(n);
   std::iota(ids.begin(), ids.end(), 0);
-- 
2.43.0


From a1d2e0b7671b1bacc46c15b330127bfed41d2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 25/36] fix: cached turns are not reused for another turning
 speed

---
 src/fields2cover/path_planning/turning_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index c95ab81..7e9da37 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -83,6 +83,7 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
   std::vector<int> v_turn {
         static_cast<int>(1e3 * robot.getMaxCurv()),
         static_cast<int>(1e3 * robot.getMaxDiffCurv()),
+        static_cast<int>(1e3 * robot.getTurnVel()),
         static_cast<int>(1e3 * dist_start_end),
         static_cast<int>(1e3 * start_angle),
         static_cast<int>(1e3 * end_angle)
-- 
2.43.0


From 77b9aad22867bc480699324c742ee60b220695c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 26/36] fix: cached turns are not reused for another
 discretization

---
 src/fields2cover/path_planning/turning_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index 7e9da37..ecb0638 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -117,6 +117,9 @@ double TurningBase::getDiscretization() const {
 }
 
 void TurningBase::setDiscretization(double d) {
+  if (this->discretization != d) {
+    this->path_cache_.clear();
+  }
   this->discretization = d;
 }
 
-- 
2.43.0


From 3fe13b026ea7952be881a9277d8df9c7c72b4865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:05 +0000
Subject: [PATCH 27/36] fix: splines pass through their second point

---
 src/fields2cover/utils/spline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 071787d..c59c7b4 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -104,8 +104,9 @@ double CubicSpline::operator()(double x) const {
   double xi = xs - x_vec_[idx];
   double xi2 = xi * xi;
   double xi3 = xi2 * xi;
+  double d = l == 0 ? 0. : d_vec_[idx];  // No cubic term before the first point
 
-  return y_vec_[idx] + b_vec_[idx] * xi + c_vec_[idx] * xi2 + d_vec_[idx] * xi3;
+  return y_vec_[idx] + b_vec_[idx] * xi + c_vec_[idx] * xi2 + d * xi3;
 }
 
 void CubicSpline::SetSpline() {
@@ -187,7 +188,6 @@ void CubicSpline::SetSplineCubic() {
     }
   }
 
-  d_vec_[0] = 0.;
   d_vec_[size_ - 1] = 0.;
 }
 
-- 
2.43.0


From 43abddd40f3a5411881e6a4d100a949945041347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:05 +0000
Subject: [PATCH 28/36] fix: splines check the order of their first two points

---
 src/fields2cover/utils/spline.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index c59c7b4..79906e8 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -116,6 +116,9 @@ void CubicSpline::SetSpline() {
 void CubicSpline::SetSplineCubic() {
   std::vector<double> h(size_), alpha(size_), l(size_), z(size_), u(size_);
 
+  check_error(x_vec_[1] > x_vec_[0],
+      "In CubicSpline SetSpline, x array is not sorted"
+      "from smallest to largest\n");
   h[0] = x_vec_[1] - x_vec_[0];
   l[0] = 1.;
   u[0] = 0.;
-- 
2.43.0


From d69592d306bf403b9082cf02e1e1ebd2c14ece32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:05 +0000
Subject: [PATCH 29/36] fix: monotonic splines stay inside of their
 coefficients

---
 src/fields2cover/utils/spline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 79906e8..ee252a3 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -151,7 +151,7 @@ void CubicSpline::SetSplineCubic() {
   // Monotonic correction
   if (monotonic_) {
     bool changed = false;
-    for (unsigned int i = 0; i < size_; i++) {
+    for (unsigned int i = 0; i < size_ - 1; i++) {
       int i_low = std::max(static_cast<int>(i - 1), 0);
       int i_high =
           std::min(static_cast<int>(i + 1), static_cast<int>(size_) - 1);
@@ -181,7 +181,7 @@ void CubicSpline::SetSplineCubic() {
     }
 
     if (changed) {
-      for (unsigned int i = 0; i < size_; i++) {
+      for (unsigned int i = 0; i < size_ - 1; i++) {
         double inv_h = 1.0 / h[i];
         c_vec_[i] = inv_h * (3.0 * inv_h * (y_vec_[i + 1] - y_vec_[i])
                              - 2.0 * b_vec_[i] - b_vec_[i + 1]);
-- 
2.43.0


From c00f59774c421409c2b79603e242983ea0b478d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 30/36] fix: splines without points are not evaluated

---
 src/fields2cover/utils/spline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index ee252a3..4b936a5 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -86,6 +86,7 @@ void CubicSpline::SetPoints(
 
 
 double CubicSpline::operator()(double x) const {
+  check_error(size_ > 0, "CubicSpline has no points\n");
   const auto xs = static_cast<double>(x);
 
   int l = 0;
-- 
2.43.0


From 3e921fbf5a152e1202f5c5192eab424fc187f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:21 +0000
Subject: [PATCH 31/36] fix: splines forget the slopes of earlier points

---
 src/fields2cover/utils/spline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 4b936a5..1b0bc01 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -126,6 +126,7 @@ void CubicSpline::SetSplineCubic() {
   z[0] = 0.;
   l[size_ - 1] = 1.;
   u[size_ - 1] = 0.;
+  b_vec_[size_ - 1] = 0.;
   c_vec_[size_ - 1] = 0.;
 
   for (unsigned int i = 1; i < size_ - 1; i++) {
-- 
2.43.0


From 7dba5f7e4b615c77a79fb4b96ef3653566b48259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 32/36] fix: report incomplete GML files instead of
 dereferencing null

---
 src/fields2cover/utils/parser.cpp | 41 ++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 9c8866c..e617864 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -14,6 +14,20 @@ using json = nlohmann::json;
 
 namespace f2c {
 
+namespace {
+
+const tinyxml2::XMLElement* getChild(
+    const tinyxml2::XMLElement* parent, const char* name) {
+  auto* child = parent->FirstChildElement(name);
+  if (child == nullptr) {
+    throw std::invalid_argument(
+        std::string("GML file without element ") + name);
+  }
+  return child;
+}
+
+}  // namespace
+
 void Parser::importGml(const std::string& file, F2CFields& fields) {
   fields.emplace_back(importFieldGml(file));
 }
@@ -40,19 +54,21 @@ F2CField Parser::importFieldGml(
     id = e_result;
   }
 
-  auto* p_field = p_parcel->FirstChildElement("Field");
+  auto* p_polygon = getChild(getChild(
+      getChild(p_parcel, "Field"), "geometry"), "gml:Polygon");
 
-  auto* p_polygon = p_field\
-            ->FirstChildElement("geometry")\
-            ->FirstChildElement("gml:Polygon");
-
-  std::string coord_sys = p_polygon->Attribute("srsName");
+  auto* p_srs = p_polygon->Attribute("srsName");
+  if (p_srs == nullptr) {
+    throw std::invalid_argument("GML polygon without srsName");
+  }
+  std::string coord_sys = p_srs;
 
-  std::string p_coords = std::string(
-            p_polygon->FirstChildElement("gml:outerBoundaryIs")\
-            ->FirstChildElement("gml:LinearRing")\
-            ->FirstChildElement("gml:coordinates")\
-            ->GetText());
+  auto* p_text = getChild(getChild(getChild(p_polygon,
+      "gml:outerBoundaryIs"), "gml:LinearRing"), "gml:coordinates")->GetText();
+  if (p_text == nullptr) {
+    throw std::invalid_argument("GML polygon without coordinates");
+  }
+  std::string p_coords = std::string(p_text);
   auto findAndReplaceAll =
       [](std::string& data, std::string toSearch, std::string replaceStr) {
             size_t pos = data.find(toSearch);
@@ -69,6 +85,9 @@ F2CField Parser::importFieldGml(
   OGRGeometry* new_geom{};
   auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
   OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
+  if (new_geom == nullptr) {
+    throw std::invalid_argument("GML coordinates are not a polygon");
+  }
 
   F2CField field(F2CCells(new_geom), id);
   field.setCRS(coord_sys);
-- 
2.43.0


From fdf25f3277470a0f654cc534554186356cf1e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 33/36] fix: report GeoJSON features without geometry instead
 of undefined behaviour

---
 src/fields2cover/utils/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index e617864..d5b2ce8 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -115,7 +115,7 @@ F2CCell getCellFromJson(const json& imported_cell) {
     return ring;
   };
   F2CCell cell;
-  auto json_rings = imported_cell["geometry"]["coordinates"];
+  auto json_rings = imported_cell.at("geometry").at("coordinates");
   for (int i = 0; i < json_rings.size(); ++i) {
     cell.addRing(jsonToF2CRing(json_rings[i]));
   }
-- 
2.43.0


From e33e21dd4c6472ff7f3979212d5a86fa4c1cdb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 34/36] fix: do not read a route order of less than two nodes

---
 src/fields2cover/route_planning/route_planner_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 4bbbc86..512c5ea 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -197,7 +197,7 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
     F2CGraph2D& shortest_graph) const {
   F2CRoute route;
   const size_t NS = swaths_by_cells.sizeTotal();
-  for (int i = 0; i < route_ids.size()-2; ++i) {
+  for (size_t i = 0; i + 2 < route_ids.size(); ++i) {
     F2CPoint p_s = coverage_graph.indexToNode(route_ids[i]);
     F2CPoint p_e = coverage_graph.indexToNode(route_ids[i+2]);
     for (int j = 0; j < NS; ++j) {
-- 
2.43.0


From 63d3ff1562aa2a72520e573e24406d8740c8ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:24 +0000
Subject: [PATCH 35/36] fix: plan along the border when no headland swaths are
 asked for

---
 src/fields2cover.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover.cpp b/src/fields2cover.cpp
index 5ada573..a3a9406 100644
--- a/src/fields2cover.cpp
+++ b/src/fields2cover.cpp
@@ -98,7 +98,9 @@ F2CRoute planCovRoute(const F2CRobot& robot, const F2CCells& cells,
           cells, robot.getWidth(), opt.hg_swaths);
       auto hl_swaths = const_hl.generateHeadlandSwaths(
           cells, robot.getWidth(), opt.hg_swaths);
-      fast_hl_rings = hl_swaths[floor(0.5*opt.hg_swaths)];
+      // Without headland swaths, the robot drives along the border
+      fast_hl_rings = hl_swaths.empty() ?
+        cells : hl_swaths[floor(0.5*opt.hg_swaths)];
       break;
     }
   }
-- 
2.43.0


From 2e1c963c2d717cfeaf043613de176654ff35aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:27 +0000
Subject: [PATCH 36/36] fix: no line segments for an empty line instead of an
 exception

---
 src/fields2cover/types/MultiLineString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 3d27195..e2d226b 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -129,7 +129,7 @@ void MultiLineString::addGeometry(const MultiLineString& lines) {
 
 MultiLineString MultiLineString::getLineSegments(const LineString& line) {
   MultiLineString res;
-  for (size_t i = 0; i < line.size()-1; ++i) {
+  for (size_t i = 0; i + 1 < line.size(); ++i) {
     res.addGeometry(LineString({line.getGeometry(i), line.getGeometry(i+1)}));
   }
   return res;
-- 
2.43.0

