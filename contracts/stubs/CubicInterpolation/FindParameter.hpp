#pragma once
#include "CubicInterpolation/Interpolant.h"
namespace cubic_splines {
template <typename X> struct ParameterGuess { X x; X lower, upper; size_t n = 0; };
template <typename I> double find_parameter(const I&, double, const ParameterGuess<double>& g) { return g.x; }
template <typename I> double find_parameter(const I&, double, const ParameterGuess<std::array<double, 2>>& g) { return g.x[g.n]; }
}
