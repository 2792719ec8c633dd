// VF-SOURCES: math/Interpolant.cxx math/InterpolantBuilder.cxx
// VF-BOUNDED: [in=.*] tables with up to 7 nodes per axis and orders up to 5 (arbitrary node values, positions and arguments)
// VF-NODEFAULT
#include "vf.h"
#include "PROPOSAL/math/Interpolant.h"
#include "PROPOSAL/math/InterpolantBuilder.h"
#include <cmath>
#include <vector>
#include <functional>
using namespace PROPOSAL;

static double f(double t) { return vf_symbolic() ? vf_uf1("f", t) : 2 + std::sin(t); }
static double c_[6];
static double poly(int degree, double t) { double s = 0, q = 1; for (int k = 0; k <= degree; k++) { s += c_[k] * q; q *= t; } return s; }
static void coefficients(int degree) {
    static const char* N[] = {"c0", "c1", "c2", "c3", "c4", "c5"};
    for (int k = 0; k <= degree; k++) c_[k] = vf_real(N[k], -2, 2);
}
// table over n equal cells [lo, lo + n*s], argument at a fraction q of cell k
struct Where { double lo, s, hi, x; int k; };
static Where where(int n) {
    Where w;
    w.lo = vf_real("lo", -1, 1); w.s = vf_real("s", 0.2, 1);
    vf_assume(w.s > 0);
    w.hi = w.lo + n * w.s;
    w.k = vf_choose("cell", n);
    double q = vf_real("q", 0.02, 0.98);
    vf_assume(0 < q); vf_assume(q < 1);
    w.x = w.lo + w.s * (w.k + q);
    return w;
}

// ------------------------------------------------------------- equidistant tables of a function
static void polynomial(int n, int order) {
    auto w = where(n);
    coefficients(order - 1);
    Interpolant i(n, w.lo, w.hi, [=](double t) { return poly(order - 1, t); }, order, false, false, false, 2, false, false, false);
    vf_assert_eq(i.Interpolate(w.x) + 100, poly(order - 1, w.x) + 100, "polynomials below the order are reproduced");
}
VF_CONTRACT(polynomial_2) { polynomial(5, 2); }
VF_CONTRACT(polynomial_3) { polynomial(6, 3); }
VF_CONTRACT(polynomial_4) { polynomial(6, 4); }
VF_CONTRACT(polynomial_5) { polynomial(7, 5); }
VF_CONTRACT(nodes) {
    int n = 6, order = vf_int("order", 1, 5), k = vf_choose("node", 6);
    double lo = vf_real("lo", -1, 1), s = vf_real("s", 0.2, 1); vf_assume(s > 0);
    Interpolant i(n, lo, lo + n * s, [](double t) { return f(t); }, order, vf_choose("rational", 2), false, false, 2, false, false, false);
    double x = lo + s * (k + 0.5);
    vf_assert_eq(i.Interpolate(x), f(x), "the tabulated value at a node");
}
VF_CONTRACT(outside) {
    // beyond the table the nearest nodes are used
    int n = 5, order = 3; bool above = vf_choose("above", 2);
    double lo = vf_real("lo", -1, 1), s = vf_real("s", 0.2, 1), q = vf_real("q", 0, 1); vf_assume(s > 0); vf_assume(q > 0); vf_assume(q < 1);
    coefficients(2);
    Interpolant i(n, lo, lo + n * s, [=](double t) { return poly(2, t); }, order, false, false, false, 2, false, false, false);
    double x = above ? lo + (n + q) * s : lo - q * s;
    vf_assert_eq(i.Interpolate(x) + 100, poly(2, x) + 100, "polynomials below the order are reproduced");
}
VF_CONTRACT(reversed_limits) {
    auto w = where(5);
    coefficients(2);
    Interpolant i(5, w.hi, w.lo, [=](double t) { return poly(2, t); }, 3, false, false, false, 2, false, false, false);
    vf_assert_eq(i.Interpolate(w.x) + 100, poly(2, w.x) + 100, "polynomials below the order are reproduced");
}
VF_CONTRACT(log_axis) {
    auto w = where(5);
    coefficients(2);
    Interpolant i(5, std::exp(w.lo), std::exp(w.hi), [=](double t) { return poly(2, std::log(t)); }, 3, false, false, true, 2, false, false, false);
    i.x_save_ = vf_real("xs", 20, 30); i.y_save_ = 7; // left from an earlier call
    vf_assume(i.x_save_ != std::exp(w.x));
    vf_assert_eq(i.Interpolate(std::exp(w.x)) + 100, poly(2, w.x) + 100, "polynomials in the logarithm are reproduced");
    vf_assert_eq(i.Interpolate(std::exp(w.x)) + 100, poly(2, w.x) + 100, "the same argument again gives the same value");
}
VF_CONTRACT(log_value) {
    auto w = where(4);
    coefficients(1);
    vf_assume(poly(1, w.x) > -200); // within the range of the logarithmic table
    bool log = vf_choose("log", 2);
    double old = vf_real("xs", 20, 30); vf_assume(old != std::exp(w.x));
    for (int k = 0; k < 4; k++) vf_assume(poly(1, w.lo + w.s * (k + 0.5)) > -200);
    Interpolant i(4, log ? std::exp(w.lo) : w.lo, log ? std::exp(w.hi) : w.hi, [=](double t) { return std::exp(poly(1, log ? std::log(t) : t)); }, 2, false, false, log, 2, false, false, true);
    i.x_save_ = old;
    vf_assert_eq(i.Interpolate(log ? std::exp(w.x) : w.x), std::exp(poly(1, w.x)), "exponentials of polynomials are reproduced");
}
VF_CONTRACT(rational) {
    // two points determine b / (z + t)
    double q = vf_real("q", 0.02, 0.98); vf_assume(0 < q); vf_assume(q < 1);
    int k = vf_choose("cell", 4);
    struct { double lo, hi, x; } w = {0, 4, k + q};
    double b = vf_real("b", 0.2, 2), z = vf_real("z", 0.2, 2); vf_assume(z > 0); vf_assume(b > 0);
    auto g = [=](double t) { return b / (z + t); };
    Interpolant i(4, w.lo, w.hi, g, 2, true, false, false, 2, false, false, false);
    vf_assert_eq(i.Interpolate(w.x) + 100, g(w.x) + 100, "a rational function is reproduced");
}

// ------------------------------------------------------------- searching an argument
static void inverse(int order, bool falling, bool log, bool logy, int romberg = 3) {
    auto w = where(4);
    // linear function: every order inverts it
    double a = vf_real("a", -1, 1), b = vf_real("b", 0.2, 2); vf_assume(b > 0);
    double lo = w.lo;
    auto g = [=](double t) { double v = log ? std::log(t) : t; v = a + (falling ? -b : b) * (v - lo); return logy ? std::exp(v) : v; };
    if (log) { vf_assume(lo > -200); vf_assume(std::exp(w.x) != 1); } // the logarithm of one is the stored one: contract log_axis
    if (logy) { vf_assume(a - b * (w.hi - lo) > -200); }
    Interpolant i(4, log ? std::exp(w.lo) : w.lo, log ? std::exp(w.hi) : w.hi, g, romberg, false, false, log, order, false, false, logy);
    double x = log ? std::exp(w.x) : w.x;
    double u = i.FindLimit(g(x));
    vf_assert_eq(u + (log ? 0 : 100), x + (log ? 0 : 100), "the argument of a value is found");
    vf_assert(i.romberg_ == romberg && i.rombergY_ == order, "the orders are restored");
    vf_assert_eq(i.Interpolate(x) + 100, g(x) + 100, "the table is unchanged by the search");
}
VF_CONTRACT(inverse_rising) { inverse(2 + vf_choose("order", 2), false, false, false); }
VF_CONTRACT(inverse_falling) { inverse(2 + vf_choose("order", 2), true, false, false); }
VF_CONTRACT(inverse_log) { inverse(2, vf_choose("falling", 2), true, vf_choose("logy", 2), 2); }
VF_CONTRACT(inverse_piecewise) {
    // linear interpolation of any monotonic table is inverted exactly
    double lo = vf_real("lo", -1, 1), s = vf_real("s", 0.2, 1), q = vf_real("q", 0.02, 0.98), y0 = vf_real("y0", -1, 1);
    vf_assume(s > 0); vf_assume(q > 0); vf_assume(q < 1);
    static const char* N[] = {"d1", "d2", "d3"};
    double y[4]; y[0] = y0;
    bool falling = vf_choose("falling", 2);
    for (int k = 0; k < 3; k++) { double d = vf_real(N[k], 0.1, 1); vf_assume(d > 0); y[k + 1] = falling ? y[k] - d : y[k] + d; }
    int n = 4, k = vf_choose("cell", 3), next = 0;
    Interpolant i(n, lo, lo + n * s, [&](double) { return y[next++]; }, 2, false, false, false, 2, false, false, false);
    double x = lo + s * (k + 0.5 + q);
    double v = i.Interpolate(x);
    vf_assert_eq(v + 100, y[k] + q * (y[k + 1] - y[k]) + 100, "order two joins the nodes by lines");
    vf_assert_eq(i.FindLimit(v) + 100, x + 100, "the argument of a value is found");
}
VF_CONTRACT(inverse_clamped) {
    double lo = vf_real("lo", -1, 1), s = vf_real("s", 0.2, 1), b = vf_real("b", 0.2, 2), e = vf_real("e", 0.1, 3); vf_assume(s > 0); vf_assume(b > 0); vf_assume(e > 0);
    int n = 4; bool above = vf_choose("above", 2);
    double hi = lo + n * s;
    Interpolant i(n, lo, hi, [=](double t) { return b * t; }, 2, false, false, false, 2, false, false, false);
    double u = i.FindLimit(b * (above ? hi + e : lo - e));
    vf_assert_eq(u + 100, (above ? hi : lo) + 100, "values beyond the table give the limits of the table");
}

// ------------------------------------------------------------- tables of points
static void points(int order, bool falling) {
    static const char* N[] = {"d1", "d2", "d3", "d4"};
    int n = 5;
    double x0 = vf_real("x0", -1, 1), q = vf_real("q", 0.02, 0.98); vf_assume(0 < q); vf_assume(q < 1);
    std::vector<double> x(n), y(n);
    x[0] = x0;
    for (int k = 0; k < n - 1; k++) { double d = vf_real(N[k], 0.2, 1); vf_assume(d > 0); x[k + 1] = falling ? x[k] - d : x[k] + d; }
    coefficients(order - 1);
    for (int k = 0; k < n; k++) y[k] = poly(order - 1, x[k]);
    Interpolant i(x, y, order, false, false);
    int k = vf_choose("cell", n - 1);
    double t = x[k] + q * (x[k + 1] - x[k]);
    vf_assert_eq(i.InterpolateArray(t) + 100, poly(order - 1, t) + 100, "polynomials below the order are reproduced");
    int m = vf_choose("node", n);
    vf_assert_eq(i.InterpolateArray(x[m]) + 100, y[m] + 100, "the tabulated value at a node");
}
VF_CONTRACT(points_2) { points(2, vf_choose("falling", 2)); }
VF_CONTRACT(points_3) { points(3, false); }
VF_CONTRACT(points_3_falling) { points(3, true); }
VF_CONTRACT(points_4) { points(4, false); }

// ------------------------------------------------------------- two dimensions
VF_CONTRACT(plane) {
    double lo = vf_real("lo1", -1, 1), s = vf_real("s1", 0.2, 1), q = vf_real("q1", 0.02, 0.98);
    vf_assume(s > 0); vf_assume(0 < q); vf_assume(q < 1);
    auto w = where(4);
    int k = vf_choose("cell1", 4);
    double x1 = lo + s * (k + q);
    coefficients(5);
    // quadratic in both arguments with a mixed term
    auto g = [](double u, double v) { return c_[0] + c_[1] * u + c_[2] * v + c_[3] * u * u + c_[4] * v * v + c_[5] * u * v; };
    Interpolant i(4, lo, lo + 4 * s, 4, w.lo, w.hi, g, 3, false, false, false, 3, false, false, false, 2, false, false, false);
    vf_assert_eq(i.Interpolate(x1, w.x) + 100, g(x1, w.x) + 100, "polynomials below the order are reproduced");
}
VF_CONTRACT(plane_log) {
    auto w = where(4);
    double lo = vf_real("lo1", -1, 1), s = vf_real("s1", 0.2, 1), q = vf_real("q1", 0.02, 0.98);
    vf_assume(s > 0); vf_assume(0 < q); vf_assume(q < 1);
    double x1 = lo + s * (1 + q);
    coefficients(3);
    vf_assume(std::exp(w.x) != 1); vf_assume(std::exp(x1) != 1);
    vf_assume(std::exp(lo) < std::exp(lo + 4 * s)); vf_assume(std::exp(w.lo) < std::exp(w.hi)); // monotony of the exponential
    auto g = [](double u, double v) { u = std::log(u); v = std::log(v); return c_[0] + c_[1] * u + c_[2] * v + c_[3] * u * v; };
    Interpolant i(4, std::exp(lo), std::exp(lo + 4 * s), 4, std::exp(w.lo), std::exp(w.hi), g, 2, false, false, true, 2, false, false, true, 2, false, false, false);
    vf_assert_eq(i.Interpolate(std::exp(x1), std::exp(w.x)) + 100, g(std::exp(x1), std::exp(w.x)) + 100, "polynomials in the logarithms are reproduced");
}
VF_CONTRACT(plane_value) {
    double q = vf_real("q", 0.02, 0.98), q1 = vf_real("q1", 0.02, 0.98);
    vf_assume(0 < q); vf_assume(q < 1); vf_assume(0 < q1); vf_assume(q1 < 1);
    double x1 = vf_choose("cell1", 4) + q1, x2 = vf_choose("cell2", 4) + q;
    coefficients(3);
    auto g = [](double u, double v) { return c_[0] + c_[1] * u + c_[2] * v + c_[3] * u * v; };
    // within the range of the logarithmic table
    vf_assume(g(x1, x2) > -200);
    for (int b = 0; b < 4; b++) { vf_assume(g(x1, b + 0.5) > -200); for (int a = 0; a < 4; a++) vf_assume(g(a + 0.5, b + 0.5) > -200); }
    Interpolant i(4, 0, 4, 4, 0, 4, [=](double u, double v) { return std::exp(g(u, v)); }, 2, false, false, false, 2, false, false, false, 2, false, false, true);
    vf_assert_eq(i.Interpolate(x1, x2), std::exp(g(x1, x2)), "exponentials of polynomials are reproduced");
}
VF_CONTRACT(plane_inverse) {
    auto w = where(4);
    double lo = vf_real("lo1", -1, 1), s = vf_real("s1", 0.2, 1), q = vf_real("q1", 0.02, 0.98);
    vf_assume(s > 0); vf_assume(0 < q); vf_assume(q < 1);
    double x1 = lo + s * (1 + q), a = vf_real("a", -1, 1), b = vf_real("b", 0.2, 2), c = vf_real("c", -1, 1); vf_assume(b > 0);
    bool falling = vf_choose("falling", 2);
    auto g = [=](double u, double v) { return a + c * u + (falling ? -b : b) * v; };
    Interpolant i(4, lo, lo + 4 * s, 4, w.lo, w.hi, g, 2, false, false, false, 2, false, false, false, 2, false, false, false);
    i.flag_ = vf_choose("lazy", 2);
    vf_assert_eq(i.FindLimit(x1, g(x1, w.x)) + 100, w.x + 100, "the argument of a value is found");
}
VF_CONTRACT(plane_points) {
    double x0 = vf_real("x0", -1, 1), d = vf_real("d", 0.2, 1), e = vf_real("e", 0.2, 1), q = vf_real("q", 0.02, 0.98), r = vf_real("r", 0.02, 0.98), y0 = vf_real("y0", -1, 1), h = vf_real("h", 0.2, 1), l = vf_real("l", 0.2, 1);
    vf_assume(d > 0); vf_assume(e > 0); vf_assume(h > 0); vf_assume(l > 0); vf_assume(0 < q); vf_assume(q < 1); vf_assume(0 < r); vf_assume(r < 1);
    std::vector<double> X{x0, x0 + d, x0 + d + e}, Y{y0, y0 + h, y0 + h + l};
    coefficients(3);
    auto g = [](double u, double v) { return c_[0] + c_[1] * u + c_[2] * v + c_[3] * u * v; };
    std::vector<std::vector<double>> Z(3, std::vector<double>(3));
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) Z[a][b] = g(X[a], Y[b]);
    Interpolant i(X, Y, Z, 2, false, false, 2, false, false);
    int a = vf_choose("cell1", 2), b = vf_choose("cell2", 2);
    double u = X[a] + q * (X[a + 1] - X[a]), v = Y[b] + r * (Y[b + 1] - Y[b]);
    vf_assert_eq(i.InterpolateArray(u, v) + 100, g(u, v) + 100, "polynomials below the order are reproduced");
}

// ------------------------------------------------------------- copies and builders
VF_CONTRACT(copies) {
    auto w = where(4);
    bool plane = vf_choose("plane", 2);
    auto g = [](double u) { return f(u); };
    auto h = [](double u, double v) { return f(u + 2 * v); };
    Interpolant a = plane ? Interpolant(3, w.lo, w.hi, 4, w.lo, w.hi, h, 3, false, false, false, 3, false, false, false, 2, false, false, false)
                          : Interpolant(4, w.lo, w.hi, g, 3, false, true, false, 2, true, false, false);
    Interpolant b(a), c;
    c = a;
    vf_assert(b == a && c == a && !(b != a), "copies are equal");
    vf_assert((b.function2d_ != nullptr) == plane && (c.function2d_ != nullptr) == plane, "a copy has the dimension of the original");
    vf_assert((b.function1d_ != nullptr) && (c.function1d_ != nullptr), "a copy keeps the tabulated function");
    double x = w.lo + w.s / 8;
    double v = plane ? a.Interpolate(x, w.x) : a.Interpolate(w.x);
    vf_assert_eq(plane ? b.Interpolate(x, w.x) : b.Interpolate(w.x), v, "copies give the same values");
    vf_assert_eq(plane ? c.Interpolate(x, w.x) : c.Interpolate(w.x), v, "copies give the same values");
    switch (vf_choose("field", 6)) {
    case 0: b.romberg_ += 1; break;
    case 1: b.xmin_ += 1; break;
    case 2: b.iX_[2] += 1; break;
    case 3: b.isLog_ = !b.isLog_; break;
    case 4: b.step_ += 1; break;
    case 5: if (plane) b.Interpolant_[3]->iY_[1] += 1; else b.iY_[3] += 1; break;
    }
    vf_assert(!(b == a) && b != a, "tables that differ in a value are unequal");
}
VF_CONTRACT(builders) {
    auto w = where(4);
    bool plane = vf_choose("plane", 2);
    int r = vf_choose("orders", 3), r1 = r == 0 ? 3 : 2, r2 = r == 1 ? 3 : 2, ry = r == 2 ? 3 : 2;
    int one = vf_choose("flag", 5);
    bool b0 = one == 0, b1 = one == 1, b2 = one == 2, b3 = one == 3, b4 = one == 4;
    double lo = b2 ? std::exp(w.lo) : w.lo, hi = b2 ? std::exp(w.hi) : w.hi;
    if (plane) {
        Interpolant2DBuilder::Definition d;
        d.function2d = [](double u, double v) { return f(u + 2 * v); };
        d.nodes = 4; d.xmin = lo; d.xmax = hi; d.romberg = r1; d.rational = b0; d.relative = b1; d.isLog = b2; d.rombergY = ry; d.rationalY = b3; d.relativeY = b4; d.logSubst = false;
        d.nodes2 = 5; d.x2min = w.lo; d.x2max = w.hi; d.romberg2 = r2; d.rational2 = b1; d.relative2 = b0; d.isLog2 = false;
        auto p = Interpolant2DBuilder(d).build();
        Interpolant want(4, lo, hi, 5, w.lo, w.hi, d.function2d, r1, b0, b1, b2, r2, b1, b0, false, ry, b3, b4, false);
        vf_assert(*p == want, "the builder makes the table of its definition");
    } else {
        Interpolant1DBuilder::Definition d;
        d.function1d = [](double u) { return f(u); };
        d.nodes = 4; d.xmin = lo; d.xmax = hi; d.romberg = r1; d.rational = b0; d.relative = b1; d.isLog = b2; d.rombergY = ry; d.rationalY = b3; d.relativeY = b4; d.logSubst = false;
        auto p = Interpolant1DBuilder(d).build();
        Interpolant want(4, lo, hi, d.function1d, r1, b0, b1, b2, ry, b3, b4, false);
        vf_assert(*p == want, "the builder makes the table of its definition");
    }
}
