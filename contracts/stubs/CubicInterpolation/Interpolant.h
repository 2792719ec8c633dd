#pragma once
#include "CubicInterpolation/Axis.h"
namespace cubic_splines {
template <typename S> struct Interpolant {
    typename S::Definition def;
    Interpolant() {}
    template <typename... A> Interpolant(typename S::Definition&& d, A&&...) : def(std::move(d)) {}
    Interpolant(Interpolant&&) = default;
    const typename S::Definition& GetDefinition() const { return def; }
    double evaluate(double x) const { return def.f(x); }
    double evaluate(const std::array<double, 2>& x) const { return def.f(x[0], x[1]); }
    double prime(double x) const { double h = 1e-6 * (x == 0 ? 1 : x); return (def.f(x + h) - def.f(x - h)) / (2 * h); }
    std::array<double, 2> prime(const std::array<double, 2>& x) const { return {0, 0}; }
};
}
