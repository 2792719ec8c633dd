// Interface of the absent CubicInterpolation dependency: just enough for the PROPOSAL headers to
// compile. An interpolation object evaluates its definition (assumed contract of the dependency:
// the table agrees with the tabulated function); nothing else of the library is modelled.
#pragma once
#include <array>
#include <cmath>
#include <cstddef>
#include <functional>
#include <memory>
#include <string>
#include <utility>
namespace cubic_splines {
template <typename T> struct Axis {
    T low, high; size_t n;
    Axis(T l, T h, size_t k) : low(l), high(h), n(k) {}
    virtual ~Axis() {}
    T GetLow() const { return low; }
    T GetHigh() const { return high; }
    virtual T back_transform(T x) const { return x; }
    virtual T transform(T x) const { return x; }
    size_t required_nodes() const { return n; }
};
template <typename T> struct ExpAxis : Axis<T> {
    ExpAxis(T l, T h, size_t k) : Axis<T>(l, h, k) {}
    ExpAxis(T l, T h) : Axis<T>(l, h, 0) {}
    T back_transform(T x) const { return std::exp(x) * this->low; }
};
template <typename T> struct ExpM1Axis : Axis<T> {
    ExpM1Axis(T l, T h) : Axis<T>(l, h, 0) {}
};
template <typename T> struct LinAxis : Axis<T> {
    LinAxis(T l, T h, size_t k) : Axis<T>(l, h, k) {}
};
}
