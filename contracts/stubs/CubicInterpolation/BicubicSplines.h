#pragma once
#include "CubicInterpolation/Axis.h"
namespace cubic_splines {
template <typename T> struct BicubicSplines {
    struct Definition {
        std::function<T(T, T)> f;
        std::array<std::unique_ptr<Axis<T>>, 2> axis;
        std::unique_ptr<Axis<T>> f_trafo;
        bool approx_derivates = false;
        const std::array<std::unique_ptr<Axis<T>>, 2>& GetAxis() const { return axis; }
    };
    using arg = std::array<T, 2>;
};
}
