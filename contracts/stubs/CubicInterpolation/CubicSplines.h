#pragma once
#include "CubicInterpolation/Axis.h"
namespace cubic_splines {
template <typename T> struct CubicSplines {
    struct Definition {
        std::function<T(T)> f;
        std::unique_ptr<Axis<T>> axis, f_trafo;
        bool approx_derivates = false;
        const Axis<T>& GetAxis() const { return *axis; }
    };
    using arg = T;
};
}
