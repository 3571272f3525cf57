// Declarations only: enough of the steering_functions API for /repo's sources to
// be parsed and type-checked.  Nothing here is ever executed.
#pragma once
#include <cmath>
#include <vector>
#include <limits>
namespace steer {
struct State { double x, y, theta, kappa, d; };
struct Control { double delta_s, kappa, sigma; };
class Base_State_Space {
 public:
  std::vector<Control> get_controls(const State& s1, const State& s2) const;
  std::vector<State> get_path(const State& s1, const State& s2) const;
};
}
