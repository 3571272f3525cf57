#pragma once
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/utilities/utilities.hpp"
class CC_Dubins_State_Space : public steer::Base_State_Space {
 public: CC_Dubins_State_Space(double kappa, double sigma, double discretization = 0.1, bool forwards = true);
};
