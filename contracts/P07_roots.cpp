// VF-SOURCES: math/MathMethods.cxx Constants.cxx
// VF-BOUNDED: [in=bisection_steps|bisection_three_steps|newton_one_step|newton_two_steps] whole runs of at most three iterations (bisection_step is the inductive step for any number of them)
#include "vf.h"
#include "PROPOSAL/math/MathMethods.h"
#include <cmath>
#include <algorithm>
using namespace PROPOSAL;

static int sign(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
static double value(double x) { return vf_uf1("f", x); }
static double slope(double x) { return vf_uf1("df", x); }

// one halving of an arbitrary bracket: by induction over the iterations every returned bracket is one
static void bisect(int iterations) {
    double a = vf_real("a", -5, 5), b = vf_real("b", -5, 5), acc = vf_real("acc", 1e-6, 12);
    vf_assume(a != b); vf_assume(acc > 0);
    double lo = a < b ? a : b, hi = a < b ? b : a;
    auto f = [&](double x) {
        vf_assert(lo <= x && x <= hi, "the function is evaluated inside the interval only");
        return value(x);
    };
    bool bracket = sign(value(a)) * sign(value(b)) <= 0;
    bool thrown = false;
    std::pair<double, double> r(0, 0);
    try { r = Bisection(f, a, b, acc, iterations); } catch (const MathException&) { thrown = true; }
    vf_assert(thrown == !bracket, "error if and only if the interval is no bracket");
    if (thrown) return;
    vf_cover("reached");
    vf_assert(lo <= r.first && r.first <= r.second && r.second <= hi, "the bracket lies inside the initial interval");
    vf_assert(sign(value(r.first)) * sign(value(r.second)) <= 0, "the bracket contains a sign change");
    double w = (hi - lo) / 2;
    for (int i = 0; i < iterations && w >= acc; ++i) w /= 2;
    vf_assert_eq(r.second - r.first + 1, w + 1, "the bracket is halved until it is below the accuracy");
}
VF_CONTRACT(bisection_step) { bisect(0); }
VF_CONTRACT(bisection_steps) { bisect(1); }
VF_CONTRACT(bisection_three_steps) { bisect(2); }

// NewtonRaphson: ghost bracket of the evaluations seen so far
static void newton(int steps) {
    double a = vf_real("a", -5, 5), b = vf_real("b", -5, 5), acc = vf_real("acc", 1e-6, 1), x0 = vf_real("x0", -5, 5);
    vf_assume(a != b); vf_assume(acc > 0);
    double lo = a < b ? a : b, hi = a < b ? b : a;
    vf_assume(lo < x0); vf_assume(x0 < hi);
    double neg = 0, pos = 0; // the latest points with negative and non-negative value
    bool run = false;
    int seen = 0;
    double fa = value(a), fb = value(b);
    auto f = [&](double x) {
        double y = value(x);
        ++seen;
        if (seen <= 2) return y;
        if (!run) { run = true; if (fa < 0) { neg = a; pos = b; } else { neg = b; pos = a; } }
        else vf_assert((neg <= x && x <= pos) || (pos <= x && x <= neg), "every step stays inside the current bracket");
        if (seen > 3) { if (y < 0) neg = x; else pos = x; }
        return y;
    };
    bool thrown = false;
    double r = 0;
    try { r = NewtonRaphson(f, slope, a, b, x0, steps, acc); } catch (const MathException&) { thrown = true; }
    vf_assert(thrown == (sign(fa) * sign(fb) > 0), "error if and only if the interval is no bracket");
    if (thrown) return;
    vf_cover("reached");
    vf_assert(lo <= r && r <= hi, "the root lies inside the initial interval");
    if (fa == 0) vf_assert(r == a, "a root at the first limit is returned");
    else if (fb == 0) vf_assert(r == b, "a root at the second limit is returned");
    else vf_assert((neg <= r && r <= pos) || (pos <= r && r <= neg), "the root lies inside the last bracket");
}
VF_CONTRACT(newton_one_step) { newton(2); }
VF_CONTRACT(newton_two_steps) { newton(3); }
// a linear function is solved exactly, whatever the interval and the initial guess
VF_CONTRACT(newton_linear) {
    double a = vf_real("a", -5, 5), b = vf_real("b", -5, 5), acc = vf_real("acc", 1e-6, 1), x0 = vf_real("x0", -5, 5), r = vf_real("r", -5, 5), k = vf_real("k", 0.1, 5);
    bool fall = vf_choose("sense", 2) == 0, swap = vf_choose("order", 2) == 0;
    vf_assume(k > 0); vf_assume(a < x0); vf_assume(x0 < b); vf_assume(a < r); vf_assume(r < b); vf_assume(acc > 0);
    auto f = [&](double x) { return fall ? k * (r - x) : k * (x - r); };
    auto df = [&](double) { return fall ? -k : k; };
    double got = swap ? NewtonRaphson(f, df, b, a, x0, 101, acc) : NewtonRaphson(f, df, a, b, x0, 101, acc);
    vf_cover("reached");
    // Newton steps end exactly at the root; a bisection may end within the accuracy
    vf_assert(got - r < acc, "root from above within the accuracy");
    vf_assert(r - got < acc, "root from below within the accuracy");
}
// the guess is already a root, with vanishing slope
VF_CONTRACT(newton_flat_root) {
    double r = vf_real("r", -5, 5), w = vf_real("w", 0.1, 2), v = vf_real("v", 0.1, 2), k = vf_real("k", 0.1, 5);
    vf_assume(k > 0); vf_assume(w > 0); vf_assume(v > 0);
    auto f = [&](double x) { return k * (x - r) * (x - r) * (x - r); };
    auto df = [&](double x) { return 3 * k * (x - r) * (x - r); };
    double got = NewtonRaphson(f, df, r - w, r + v, r, 101, 1e-6);
    vf_assert(got == r, "a guess that is a root is returned");
}
