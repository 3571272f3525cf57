#pragma once
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/utilities/utilities.hpp"
class Dubins_State_Space : public steer::Base_State_Space {
 public: Dubins_State_Space(double kappa, double discretization = 0.1, bool forwards = true);
};
