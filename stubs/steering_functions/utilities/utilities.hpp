#pragma once
#include <cmath>
#include "steering_functions/steering_functions.hpp"
inline double max(double a, double b) { return a > b ? a : b; }
inline double min(double a, double b) { return a < b ? a : b; }
void end_of_clothoid(double x_i, double y_i, double theta_i, double kappa_i, double sigma,
    double direction, double length, double* x_f, double* y_f, double* theta_f, double* kappa_f);
