#pragma once
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/utilities/utilities.hpp"
class Reeds_Shepp_State_Space : public steer::Base_State_Space {
 public: Reeds_Shepp_State_Space(double kappa, double discretization = 0.1);
};
