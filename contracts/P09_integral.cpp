// VF-SOURCES: math/Integral.cxx Constants.cxx
// VF-BOUNDED: [in=rule_.*|sum_.*|extrapolation.*|panels_.*|refine_start] fixed refinement levels, polynomial integrands up to degree 7 (Romberg) and 11 (Gauss-Kronrod), up to three adaptive panels, one step of the refinement of the upper limit
// VF-NODEFAULT
// VF-REPLACE: PROPOSAL::Integral::RombergIntegrateOpened\(\) => exact_integral [in=vfc_limits_.*]
// VF-REPLACE: PROPOSAL::Integral::RombergIntegrateClosed\(\) => exact_integral [in=vfc_limits_.*]
// VF-REPLACE: PROPOSAL::Integral::RombergIntegrateOpened\(\) => exact_integral [in=vfc_fraction_.*]
// VF-REPLACE: PROPOSAL::Integral::RefineUpperLimit\(double\) => refined_limit [in=vfc_fraction_.*]
// VF-REPLACE: PROPOSAL::Integral::q_gaus_kronrod_21\(double, double\) => exact_panel [in=vfc_panels_.*]
// VF-REPLACE: PROPOSAL::Integral::RombergIntegrateOpened\(double\) => exact_part [in=vfc_refine_.*]
#include "vf.h"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/Constants.h"
#include <cmath>
#include <functional>
using namespace PROPOSAL;

// an arbitrary integrand f and its antiderivative F
static double F(double t) { return vf_symbolic() ? vf_uf1("F", t) : t + 0.3 * t * t; }
static double f(double t) { return vf_symbolic() ? vf_uf1("f", t) : 1 + 0.6 * t; }
static std::function<double(double)> any() { return [](double t) { return f(t); }; }

// argument t(x) of the integrand at the integration variable x
static double argument(const Integral& s, double x) {
    if (s.reverse_) x = s.reverseX_ - x;
    double p = s.powerOfSubstitution_, t = x;
    if (p > 0) t = std::pow(x, -p);
    if (p < 0) t = -std::pow(-x, p);
    return s.useLog_ ? std::exp(t) : t;
}
// contract of the integration rule: the integral of |dt/dx| f(t(x)) over the stored limits
extern "C" double exact_integral(Integral* s) {
    double sign = s->powerOfSubstitution_ == 0 ? 1 : -1;
    if (s->reverse_) sign = -sign;
    return sign * (F(argument(*s, s->max_)) - F(argument(*s, s->min_)));
}

// ------------------------------------------------------------- integrand under substitution
static void substituted(double p, bool log, bool reverse) {
    double x = vf_real("x", 0.2, 3);
    Integral i;
    i.integrand_ = any();
    i.powerOfSubstitution_ = p;
    i.useLog_ = log;
    i.reverse_ = reverse;
    double rx = vf_real("rx", 4, 8);
    if (p < 0) { x = -x; rx = -rx; }
    i.reverseX_ = rx;
    double y = reverse ? rx - x : x;
    vf_assume(p < 0 ? y < 0 : p > 0 ? y > 0 : true);
    double t = y, d = 1; // argument and |dt/dx|
    if (p > 0) { t = std::pow(y, -p); d = p * std::pow(y, -p - 1); }
    if (p < 0) { t = -std::pow(-y, p); d = -p * std::pow(-y, p - 1); }
    if (log) { t = std::exp(t); d = d * t; }
    if (!vf_symbolic()) vf_assume(std::fabs(t) < 1e4);
    double got = i.Function(x);
    vf_assert_eq(got, d * f(t), "integrand in the substituted variable times the derivative of the substitution");
}
static double power(int sign) { double p = vf_real("p", 0.5, 3); vf_assume(p > 0); return sign * p; }
VF_CONTRACT(substitution_none) { substituted(0, vf_choose("log", 2), vf_choose("reverse", 2)); }
VF_CONTRACT(substitution_positive) { substituted(power(1), vf_choose("log", 2), vf_choose("reverse", 2)); }
VF_CONTRACT(substitution_negative) { substituted(power(-1), vf_choose("log", 2), vf_choose("reverse", 2)); }

// ------------------------------------------------------------- limits and sign
static void limits(int method, double lo, double hi, double p, bool random) {
    Integral i;
    // further apart than the computer precision in the substituted variable
    if (p != 0) {
        double x = lo < 0 ? -lo : lo, y = hi < 0 ? -hi : hi, e = p < 0 ? 1 / p : -1 / p;
        double u = std::pow(x, e), v = std::pow(y, e), m = u < v ? u : v, M = u < v ? v : u;
        vf_assume(M - m > M * COMPUTER_PRECISION);
    }
    // left over from previous use
    i.reverse_ = vf_choose("reverse", 2); i.useLog_ = vf_choose("log", 2); i.reverseX_ = 7; i.powerOfSubstitution_ = 3; i.min_ = 1; i.max_ = 9;
    double r = random ? vf_real("ratio", 0, 1) : 0;
    if (random) { vf_assume(0 <= r); vf_assume(r <= 1); }
    double got = random ? i.IntegrateWithRandomRatio(lo, hi, any(), method, r, p) : i.Integrate(lo, hi, any(), method, p);
    vf_cover("reached");
    vf_assert_eq(got + 1000, F(hi) - F(lo) + 1000, "integral between the limits, negative for reversed limits");
    if (random) vf_assert_eq(i.randomNumber_, r, "the random fraction is kept");
}
static void any_limits(double& lo, double& hi) {
    lo = vf_real("lo", -5, 5); hi = vf_real("hi", -5, 5);
    double d = lo < hi ? hi - lo : lo - hi;
    // further apart than the computer precision
    double a = lo < hi ? lo : hi, b = lo < hi ? hi : lo;
    vf_assume(d > std::fabs(a) * COMPUTER_PRECISION); vf_assume(d > std::fabs(b) * COMPUTER_PRECISION);
    vf_assume(lo != hi);
}
static void positive_limits(double& lo, double& hi) {
    // hi = lo * (1 + g) or the reverse
    double a = vf_real("a", 0.1, 5), g = vf_real("g", 0.1, 3);
    vf_assume(a > 0); vf_assume(g > 2 * COMPUTER_PRECISION);
    bool rev = vf_choose("reversed", 2);
    double b = a * (1 + g);
    lo = rev ? b : a; hi = rev ? a : b;
}
VF_CONTRACT(limits_closed) { double a, b; any_limits(a, b); limits(1, a, b, 0, false); }
VF_CONTRACT(limits_opened) { double a, b; any_limits(a, b); limits(2, a, b, 0, false); }
VF_CONTRACT(limits_plain) { double a, b; any_limits(a, b); limits(3, a, b, 0, vf_choose("random", 2)); }
VF_CONTRACT(limits_power) {
    double a, b; positive_limits(a, b);
    double p = vf_choose("power", 2) ? 2 : 1;
    limits(3, a, b, p, vf_choose("random", 2));
}
VF_CONTRACT(limits_negative_power) {
    double a, b; positive_limits(a, b);
    double p = vf_choose("power", 2) ? -2 : -1;
    limits(3, -a, -b, p, vf_choose("random", 2));
}

VF_CONTRACT(limits_log) {
    double a, b; positive_limits(a, b);
    double u = std::log(a), v = std::log(b), m = u < v ? u : v, M = u < v ? v : u;
    vf_assume(M - m > std::fabs(m) * COMPUTER_PRECISION);
    limits(4, a, b, 0, vf_choose("random", 2));
}
static void log_power(int sign, double p) {
    // limits exp(+-s), exp(+-t)
    double s = vf_real("s", 0.2, 2), t = vf_real("t", 0.2, 2);
    vf_assume(s > 0); vf_assume(t > 0); vf_assume(s != t);
    double e = -1 / p, u = std::pow(s, e), v = std::pow(t, e), m = u < v ? u : v, M = u < v ? v : u;
    vf_assume(M - m > M * COMPUTER_PRECISION);
    double lo = std::exp(sign * s), hi = std::exp(sign * t);
    Integral i;
    i.reverse_ = vf_choose("reverse", 2); i.useLog_ = false; i.min_ = 1; i.max_ = 9;
    double got = i.Integrate(lo, hi, any(), 5, sign * p);
    vf_cover("reached");
    vf_assert_eq(got + 1000, F(hi) - F(lo) + 1000, "integral between the limits, negative for reversed limits");
}
VF_CONTRACT(limits_log_power) { log_power(1, vf_choose("power", 2) ? 2 : 1); }
VF_CONTRACT(limits_log_negative_power) { log_power(-1, vf_choose("power", 2) ? 2 : 1); }
VF_CONTRACT(empty_interval) {
    double a = vf_real("a", -3, 3);
    int method = vf_int("method", 1, 5);
    Integral i;
    bool random = vf_choose("random", 2);
    if (random) vf_assume(method == 3 || (method == 4 && (a > 0 || a == 0)));
    double r = vf_real("ratio", 0, 1);
    double got = random ? i.IntegrateWithRandomRatio(a, a, any(), method, r) : i.Integrate(a, a, any(), method);
    vf_assert(got == 0, "the integral over an empty interval is zero");
}

// ------------------------------------------------------------- upper limit at a fraction of the integral
static double chosen_, ratio_;
// contract of the refinement: the returned point splits the integral at the random fraction
extern "C" void refined_limit(Integral* s, double result) {
    double x = vf_real("X", 0, 1);
    vf_assume(s->min_ <= x); vf_assume(x <= s->max_);
    double sign = s->powerOfSubstitution_ == 0 ? 1 : -1;
    if (s->reverse_) sign = -sign;
    if (s->powerOfSubstitution_ != 0) { double y = s->reverse_ ? s->reverseX_ - x : x; vf_assume(s->powerOfSubstitution_ > 0 ? y > 0 : y < 0); }
    vf_assume(sign * (F(argument(*s, x)) - F(argument(*s, s->min_))) == s->randomNumber_ * result);
    s->randomX_ = x;
}
static void fraction(int method, double lo, double hi, double p) {
    Integral i;
    i.reverse_ = vf_choose("reverse", 2); i.useLog_ = vf_choose("log", 2);
    double r = vf_real("ratio", 0.05, 0.95); vf_assume(0 < r); vf_assume(r < 1);
    i.IntegrateWithRandomRatio(lo, hi, any(), method, r, p);
    vf_assume(i.max_ - i.min_ > std::fabs(i.min_) * COMPUTER_PRECISION);
    double u = i.GetUpperLimit();
    vf_cover("reached");
    vf_assert_eq_tol(F(u) - F(lo), r * (F(hi) - F(lo)), "the limit splits the integral at the chosen fraction", 1e-3);
}
VF_CONTRACT(fraction_plain) { double a, b; any_limits(a, b); fraction(3, a, b, 0); }
VF_CONTRACT(fraction_power) { double a, b; positive_limits(a, b); fraction(3, a, b, vf_choose("power", 2) ? 2 : 1); }
VF_CONTRACT(fraction_negative_power) { double a, b; positive_limits(a, b); fraction(3, -a, -b, vf_choose("power", 2) ? -2 : -1); }
VF_CONTRACT(fraction_log) { double a, b; positive_limits(a, b); fraction(4, a, b, 0); }
static void ends(bool log) {
    double a, b; positive_limits(a, b);
    bool one = vf_choose("one", 2);
    Integral i;
    i.IntegrateWithRandomRatio(a, b, [log](double t) { return log ? 1 / t : 1.; }, log ? 4 : 3, one ? 1 : 0);
    vf_assume(i.max_ - i.min_ > std::fabs(i.min_) * COMPUTER_PRECISION);
    double u = i.GetUpperLimit();
    vf_assert_eq(u, one ? b : a, "fraction zero and one give the limits themselves");
}

VF_CONTRACT(ends_plain) { ends(false); }
VF_CONTRACT(ends_log) { ends(true); }

// ------------------------------------------------------------- the rules themselves
static double poly(const double* c, int n, double t) { double s = 0, q = 1; for (int k = 0; k < n; k++) { s += c[k] * q; q *= t; } return s; }
static double primitive(const double* c, int n, double t) { double s = 0, q = t; for (int k = 0; k < n; k++) { s += c[k] * q / (k + 1); q *= t; } return s; }
static double c_[12];
static Integral over(int degree, double& lo, double& hi) {
    static const char* N[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11"};
    for (int k = 0; k <= degree; k++) c_[k] = vf_real(N[k], -2, 2);
    lo = vf_real("lo", -1, 1);
    double h = vf_real("h", 0.2, 2);
    vf_assume(h > 0);
    hi = lo + h;
    Integral i;
    i.min_ = lo; i.max_ = hi;
    i.powerOfSubstitution_ = 0; i.useLog_ = false; i.reverse_ = false; i.randomNumber_ = 0;
    i.integrand_ = [degree](double t) { return poly(c_, degree + 1, t); };
    return i;
}
static double exact(int degree, double lo, double hi) { return primitive(c_, degree + 1, hi) - primitive(c_, degree + 1, lo); }
VF_CONTRACT(rule_closed) { double a, b; auto i = over(7, a, b); vf_assert_eq(i.RombergIntegrateClosed() + 100, exact(7, a, b) + 100, "exact for polynomials"); }
VF_CONTRACT(rule_opened) { double a, b; auto i = over(7, a, b); vf_assert_eq(i.RombergIntegrateOpened() + 100, exact(7, a, b) + 100, "exact for polynomials"); }
VF_CONTRACT(rule_opened_part) { double a, b; auto i = over(7, a, b); vf_assert_eq(i.RombergIntegrateOpened(1e3) + 100, exact(7, a, b) + 100, "exact for polynomials"); }
VF_CONTRACT(rule_kronrod) {
    double a, b; auto i = over(11, a, b);
    vf_no_split();
    auto r = i.q_gaus_kronrod_21(a, b);
    vf_assert_eq(r.first.Value + 100, exact(11, a, b) + 100, "exact for polynomials");
}
// trapezoidal sums of an arbitrary integrand
VF_CONTRACT(sum_closed) {
    double a = vf_real("lo", -1, 1), h = vf_real("h", 0.2, 2); vf_assume(h > 0);
    Integral i; i.min_ = a; i.max_ = a + h; i.integrand_ = any();
    double s = i.Trapezoid(1, 0);
    vf_assert_eq(s + 100, h * (f(a) + f(a + h)) / 2 + 100, "trapezoid");
    double old = vf_real("old", -2, 2);
    int n = 2 << vf_choose("level", 3);
    double w = 0;
    for (int k = 0; k < n / 2; k++) w += f(a + h * (2 * k + 1) / n);
    vf_assert_eq(i.Trapezoid(n, old) + 100, old / 2 + w * h / n + 100, "halved trapezoid adds the new midpoints");
}
VF_CONTRACT(sum_opened) {
    double a = vf_real("lo", -1, 1), h = vf_real("h", 0.2, 2); vf_assume(h > 0);
    Integral i; i.min_ = a; i.max_ = a + h; i.integrand_ = any();
    bool s3 = vf_choose("random", 2);
    double s = s3 ? i.Trapezoid3S(1, 0, 0) : i.Trapezoid3(1, 0);
    vf_assert_eq(s + 100, h * f(a + h / 2) + 100, "midpoint rule");
    double old = vf_real("old", -2, 2);
    int n = vf_choose("level", 2) ? 9 : 3;
    double w = 0;
    for (int k = 0; k < n; k++) if (k % 3 != 1) w += f(a + h * (2 * k + 1) / (2 * n));
    vf_assert_eq((s3 ? i.Trapezoid3S(n, old, 1) : i.Trapezoid3(n, old)) + 100, old / 3 + w * h / n + 100, "refined midpoint rule adds the new midpoints");
}
VF_CONTRACT(extrapolation) {
    // polynomial through the last romberg points, at x
    Integral i;
    int start = vf_choose("start", 3);
    bool closed = vf_choose("closed", 2);
    static const char* N[] = {"y0", "y1", "y2", "y3", "y4"};
    double X[5], Y[5], n = 1;
    for (int k = 0; k < start; k++) n /= closed ? 4 : 9;
    for (int k = 0; k < 5; k++) {
        X[k] = n; n /= closed ? 4 : 9;
        Y[k] = vf_real(N[k], -3, 3);
        i.iX_[start + k] = X[k]; i.iY_[start + k] = Y[k];
    }
    double want = 0;
    for (int k = 0; k < 5; k++) { double l = Y[k]; for (int j = 0; j < 5; j++) if (j != k) l *= X[j] / (X[j] - X[k]); want += l; }
    auto r = i.Interpolate(start, 0);
    vf_assert_eq(r.Value + 100, want + 100, "polynomial through the points, extrapolated to zero");
}
VF_CONTRACT(extrapolation_any) {
    // three points anywhere, in decreasing order
    Integral i; i.romberg_ = 3;
    double x2 = vf_real("x2", 0.1, 1), d1 = vf_real("d1", 0.1, 1), d2 = vf_real("d2", 0.1, 1);
    vf_assume(x2 > 0); vf_assume(d1 > 0); vf_assume(d2 > 0);
    double X[3] = {x2 + d1 + d2, x2 + d1, x2}, Y[3] = {vf_real("y0", -3, 3), vf_real("y1", -3, 3), vf_real("y2", -3, 3)};
    for (int k = 0; k < 3; k++) { i.iX_[k] = X[k]; i.iY_[k] = Y[k]; }
    double want = 0;
    for (int k = 0; k < 3; k++) { double l = Y[k]; for (int j = 0; j < 3; j++) if (j != k) l *= X[j] / (X[j] - X[k]); want += l; }
    auto r = i.Interpolate(0, 0);
    vf_assert_eq(r.Value + 100, want + 100, "polynomial through the points, extrapolated to zero");
    vf_assert_eq(r.Error + 100, want - (Y[2] * X[1] - Y[1] * X[2]) / (X[1] - X[2]) + 100, "error is the last correction");
}

static int calls_ = -1;
// contract of the Gauss-Kronrod rule on one panel: exact value, any error estimate
extern "C" void exact_panel(std::pair<Integral::InterpolationResults, Integral::InterpolationResults>* r, Integral* s, double a, double b) {
    double v = F(b) - F(a);
    r->first.Value = v;
    if (calls_ >= 0) {
        // halving the worst panel leaves one half with most of the error
        static const char* N[] = {"w0", "w1", "w2"};
        static int left; static double scale;
        int k = calls_++;
        if (k == 0) scale = 8;
        else if (k % 2) { left = vf_choose(N[k / 2], 2); scale = scale / 2; }
        r->first.Error = k == 0 || (k % 2) == left ? scale : scale / 4;
        r->second.Value = 1; r->second.Error = 1;
        return;
    }
    r->first.Error = vf_symbolic() ? vf_uf2("err", a, b) : 0.1;
    r->second.Value = vf_symbolic() ? vf_uf2("abs", a, b) : 1;
    r->second.Error = vf_symbolic() ? vf_uf2("asc", a, b) : 1;
    if (vf_symbolic()) vf_no_split();
    vf_assume(r->first.Error > 0); vf_assume(r->second.Value > 0); vf_assume(r->second.Error > 0);
}
static void panels(int limit) {
    double a = vf_real("lo", -1, 1), h = vf_real("h", 0.2, 2); vf_assume(h > 0);
    Integral i; i.min_ = a; i.max_ = a + h; i.integrand_ = any();
    i.powerOfSubstitution_ = 0; i.useLog_ = false; i.reverse_ = false; i.randomNumber_ = 0;
    auto r = i.qags(limit);
    vf_assert_eq(r.value + 100, F(a + h) - F(a) + 100, "the panels add up to the whole interval");
}
VF_CONTRACT(panels_one) { panels(1); }
VF_CONTRACT(panels_two) { panels(2); }
VF_CONTRACT(panels_three) { calls_ = 0; panels(3); }

// choosing the upper limit without any stand-in: constant and linear integrands
static void inverse(bool linear, bool reversed) {
    double lo = vf_real("lo", -1, 1), h = vf_real("h", 0.2, 2), c = vf_real("c", 0.2, 2), r = vf_real("ratio", 0.05, 0.95);
    vf_assume(h > 0); vf_assume(c > 0); vf_assume(0 < r); vf_assume(r < 1);
    double b = 0;
    if (linear) { b = vf_real("b", 0.1, 3); vf_assume(b > 0); }
    vf_assume(h > std::fabs(lo) * COMPUTER_PRECISION); vf_assume(h > std::fabs(lo + h) * COMPUTER_PRECISION);
    Integral i;
    auto g = [=](double t) { return c + b * (t - lo); };
    if (reversed) i.IntegrateWithRandomRatio(lo + h, lo, g, 3, r); else i.IntegrateWithRandomRatio(lo, lo + h, g, 3, r);
    double u = i.GetUpperLimit();
    double all = c * h + b * h * h / 2, y = u - lo, part = c * y + b * y * y / 2;
    vf_assert_eq_tol(part + 10, (reversed ? 1 - r : r) * all + 10, "the limit splits the integral at the chosen fraction", 1e-4);
}
VF_CONTRACT(inverse_constant) { inverse(false, false); }
VF_CONTRACT(inverse_constant_reversed) { inverse(false, true); }

// one refinement step: Newton inside the bracket, bisection otherwise
extern "C" double exact_part(Integral* s, double) { return F(s->max_) - F(s->min_); }
VF_CONTRACT(refine_start) {
    double lo = vf_real("lo", -1, 1), h = vf_real("h", 0.2, 2), q = vf_real("q", 0.05, 0.95), r = vf_real("ratio", 0.05, 0.95);
    vf_assume(h > 0); vf_assume(0 < q); vf_assume(q < 1); vf_assume(0 < r); vf_assume(r < 1);
    Integral i; i.min_ = lo; i.max_ = lo + h; i.integrand_ = any(); i.randomNumber_ = r;
    i.powerOfSubstitution_ = 0; i.useLog_ = false; i.reverse_ = false;
    i.maxSteps_upper_limit_ = 1;
    double x = lo + q * h; i.randomX_ = x;
    double I = F(lo + h) - F(lo);
    vf_assume(I > 0); vf_assume(f(x) > 0);
    vf_assume(F(x) - F(lo) > 0); vf_assume(F(lo + h) - F(x) > 0);
    i.RefineUpperLimit(I);
    double e = F(x) - F(lo) - r * I, u = i.randomX_;
    auto is = [&](double v) { return vf_symbolic() ? u == v : std::fabs(u - v) < 1e-9; };
    vf_assert(is(x - e / f(x)) || is((lo + x) / 2) || is((x + lo + h) / 2), "Newton step or middle of the bracket");
    vf_assert(lo <= u + (vf_symbolic() ? 0 : 1e-9) && u <= lo + h + (vf_symbolic() ? 0 : 1e-9), "the point stays in the interval");
    vf_assert_eq(i.min_, lo, "limits are restored"); vf_assert_eq(i.max_, lo + h, "limits are restored");
    vf_assert(i.romberg_ == 5, "order is restored");
}

// ------------------------------------------------------------- copies
VF_CONTRACT(copies) {
    double lo = vf_real("lo", -1, 1), h = vf_real("h", 0.2, 2), r = vf_real("ratio", 0.05, 0.95), x = vf_real("x", 0, 1);
    Integral a;
    a.min_ = lo; a.max_ = lo + h; a.randomNumber_ = r; a.powerOfSubstitution_ = 2; a.useLog_ = true; a.reverse_ = true; a.reverseX_ = 7; a.randomX_ = x; a.savedResult_ = h; a.romberg_ = 4;
    a.integrand_ = any();
    Integral b(a), c;
    c = a;
    vf_assert(b == a && !(b != a) && c == a, "copies are equal");
    a.integrand_ = [](double) { return 0.; };
    vf_assert_eq(b.integrand_(x) + 10, f(x) + 10, "a copy keeps its own integrand");
    vf_assert_eq(c.integrand_(x) + 10, f(x) + 10, "an assigned integrator keeps its own integrand");
}
