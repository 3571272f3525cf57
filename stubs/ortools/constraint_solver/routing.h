// Declarations only (see steering_functions.hpp).
#pragma once
#include <cstdint>
#include <functional>
#include <vector>
namespace operations_research {
class IntVar {};
class Duration_ { public: void set_seconds(int64_t); };
struct FirstSolutionStrategy { enum Value { AUTOMATIC = 0 }; };
struct LocalSearchMetaheuristic { enum Value { AUTOMATIC = 0, GUIDED_LOCAL_SEARCH = 2 }; };
class RoutingSearchParameters {
 public:
  void set_use_full_propagation(bool);
  void set_first_solution_strategy(FirstSolutionStrategy::Value);
  void set_local_search_metaheuristic(LocalSearchMetaheuristic::Value);
  Duration_* mutable_time_limit();
  void set_log_search(bool);
};
RoutingSearchParameters DefaultRoutingSearchParameters();
class RoutingIndexManager {
 public:
  class NodeIndex {
   public: explicit NodeIndex(int); int value() const;
  };
  RoutingIndexManager(int num_nodes, int num_vehicles, NodeIndex depot);
  NodeIndex IndexToNode(int64_t index) const;
};
class Assignment { public: int64_t Value(const IntVar* var) const; };
class RoutingModel {
 public:
  explicit RoutingModel(const RoutingIndexManager&);
  int RegisterTransitCallback(std::function<int64_t(int64_t, int64_t)> cb);
  void SetArcCostEvaluatorOfAllVehicles(int);
  const Assignment* SolveWithParameters(const RoutingSearchParameters&);
  int64_t Start(int vehicle) const;
  bool IsEnd(int64_t index) const;
  IntVar* NextVar(int64_t index) const;
};
}
