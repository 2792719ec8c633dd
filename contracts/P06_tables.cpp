// VF-SOURCES: math/MathMethods.cxx
// VF-BOUNDED: splines through up to 5 points (arbitrary support points)
#include "common.hpp"
#include "PROPOSAL/math/MathMethods.h"
#include <cmath>
static void near(double a, double b, const char* name) { vf_assert_eq(a + 1, b + 1, name); }
static const char* const x_name[] = {"x0", "h1", "h2", "h3", "h4"};
static const char* const y_name[] = {"y0", "y1", "y2", "y3", "y4"};
VF_CONTRACT(calculated_spline) {
    int n = 2 + vf_choose("points", 4);
    std::vector<double> x, y, h;
    double at = vf_real(x_name[0], -3, 3);
    for (int i = 0; i < n; ++i) {
        if (i) { double d = vf_real(x_name[i], 0.1, 2); vf_assume(d > 0); at += d; h.push_back(d); }
        x.push_back(at);
        y.push_back(vf_real(y_name[i], -3, 3));
    }
    auto s = CalculateSpline(x, y);
    vf_assert((int)s.size() == n - 1, "one piece between two support points");
    double slope = 0, curvature = 0;
    for (int i = 0; i + 1 < n; ++i) {
        auto p = s[i].GetSpline();
        auto& c = p.second;
        vf_assert_eq(p.first, x[i], "piece is expanded around its support point");
        near(c[0], y[i], "piece starts at its support point");
        near(c[0] + h[i] * (c[1] + h[i] * (c[2] + h[i] * c[3])), y[i + 1], "piece ends at the next support point");
        if (i) near(c[1], slope, "slope is continuous");
        near(2 * c[2], curvature, i ? "curvature is continuous" : "curvature vanishes at the start");
        slope = c[1] + h[i] * (2 * c[2] + 3 * h[i] * c[3]);
        curvature = 2 * c[2] + 6 * h[i] * c[3];
    }
    near(curvature, 0, "curvature vanishes at the end");
}
