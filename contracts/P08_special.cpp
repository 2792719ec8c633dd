// VF-SOURCES: math/MathMethods.cxx Constants.cxx
// VF-REPLACE: PROPOSAL::normalppf\(double\) => any_quantile [in=vfc_gaussian]
#include "vf.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/Constants.h"
#include <cmath>
#include <algorithm>
using namespace PROPOSAL;
static const double pi = 3.14159265358979323846;

// ---------------------------------------------------------------- inverse normal distribution
// Acklam's rational approximation
static double acklam(double p) {
    static const double a[] = {-3.969683028665376e+01, 2.209460984245205e+02, -2.759285104469687e+02, 1.383577518672690e+02, -3.066479806614716e+01, 2.506628277459239e+00};
    static const double b[] = {-5.447609879822406e+01, 1.615858368580409e+02, -1.556989798598866e+02, 6.680131188771972e+01, -1.328068155288572e+01, 1};
    static const double c[] = {-7.784894002430293e-03, -3.223964580411365e-01, -2.400758277161838e+00, -2.549732539343734e+00, 4.374664141464968e+00, 2.938163982698783e+00};
    static const double d[] = {0, 7.784695709041462e-03, 3.224671290700398e-01, 2.445134137142996e+00, 3.754408661907416e+00, 1};
    bool low = p < 0.02425, high = p > 1 - 0.02425;
    if (low || high) {
        double q = std::sqrt(-2 * std::log(low ? p : 1 - p)), n = 0, m = 0;
        for (int i = 0; i < 6; ++i) { n = n * q + c[i]; m = m * q + d[i]; }
        return low ? n / m : -n / m;
    }
    double q = p - 0.5, r = q * q, n = 0, m = 0;
    for (int i = 0; i < 6; ++i) { n = n * r + a[i]; m = m * r + b[i]; }
    return n * q / m;
}
VF_CONTRACT(quantile) {
    double p = vf_real("p", 1e-9, 1);
    int region = vf_choose("region", 3);
    if (!vf_symbolic()) { vf_assume(p < 1 - 1e-9); vf_assume(std::fabs(p - 0.02425) > 1e-9 && std::fabs(p - 1 + 0.02425) > 1e-9 && std::fabs(p - 0.5) > 1e-4); }
    vf_assume(0 < p); vf_assume(p < 1);
    if (region == 0) vf_assume(p < 0.02425);
    if (region == 1) { vf_assume(0.02425 <= p); vf_assume(p <= 1 - 0.02425); }
    if (region == 2) vf_assume(1 - 0.02425 < p);
    double got = normalppf(p);
    double x = acklam(p);
    // one Halley step towards Phi(x) == p, with Phi(x) = erfc(-x / sqrt 2) / 2 and Phi' the normal density
    double e = 0.5 * std::erfc(-x / SQRT2) - p;
    double u = e * std::sqrt(2 * PI) * std::exp(0.5 * x * x);
    vf_assert_eq(got, x - u / (1 + x * u * 0.5), "Halley step from the documented approximation");
    if (!vf_symbolic()) vf_assert_eq_tol(0.5 * std::erfc(-got / std::sqrt(2.)), p, "inverse of the normal distribution", 1e-9);
}

// ---------------------------------------------------------------- truncated normal distribution
static double cdf_lo, cdf_hi, z_lo, z_hi;
static bool has_lo, has_hi;
// contract of the quantile: inverse of the (strictly increasing) distribution function
extern "C" double any_quantile(double p) {
    double z = vf_uf1("quantile", p);
    if (has_lo) vf_assume((p >= cdf_lo && z >= z_lo) || (p < cdf_lo && z < z_lo));
    if (has_hi) vf_assume((p <= cdf_hi && z <= z_hi) || (p > cdf_hi && z > z_hi));
    return z;
}
VF_CONTRACT(gaussian) {
    double mean = vf_real("mean", -5, 5), sigma = vf_real("sigma", 0.1, 3), r = vf_real("r", 0, 1);
    vf_assume(sigma > 0); vf_assume(0 <= r); vf_assume(r <= 1);
    z_lo = vf_real("zlo", -4, 4); z_hi = vf_real("zhi", -4, 4);
    vf_assume(z_lo < z_hi);
    if (!vf_symbolic()) vf_assume(1e-6 < r && r < 1 - 1e-6 && z_hi - z_lo > 1e-3);
    has_lo = vf_choose("lower", 2); has_hi = vf_choose("upper", 2);
    double lo = mean + sigma * z_lo, hi = mean + sigma * z_hi;
    cdf_lo = 0.5 + std::erf((lo - mean) / (SQRT2 * sigma)) / 2;
    cdf_hi = 0.5 + std::erf((hi - mean) / (SQRT2 * sigma)) / 2;
    vf_assume(cdf_lo < cdf_hi); vf_assume(0 < cdf_lo); vf_assume(cdf_hi < 1); // range and monotony of the distribution function
    double got = has_lo ? (has_hi ? SampleFromGaussian(mean, sigma, r, lo, hi) : SampleFromGaussian(mean, sigma, r, lo))
                        : (has_hi ? SampleFromGaussian(mean, sigma, r, -INF, hi) : SampleFromGaussian(mean, sigma, r));
    vf_cover("reached");
    double tol = vf_symbolic() ? 0 : 1e-6;
    if (has_lo) vf_assert(got >= lo - tol, "the sample is not below the lower limit");
    if (has_hi) vf_assert(got <= hi + tol, "the sample is not above the upper limit");
    double a = has_lo ? cdf_lo : 0, b = has_hi ? cdf_hi : 1;
    double z = vf_symbolic() ? vf_uf1("quantile", a + (b - a) * r) : normalppf(a + (b - a) * r);
    vf_assert_eq(got + 100, mean + sigma * z + 100, "quantile of the restricted distribution");
}
VF_CONTRACT(gaussian_without_width) {
    double mean = vf_real("mean", -5, 5);
    vf_assert_eq(SampleFromGaussian(mean, 0, vf_real("r", 0, 1)), mean, "no width: the mean");
}
VF_CONTRACT(exponential) {
    double p = vf_real("p", 0, 1), l = vf_real("lambda", 0.1, 5);
    vf_assume(0 <= p); vf_assume(p < 1); vf_assume(l > 0);
    if (!vf_symbolic()) vf_assume(p < 1 - 1e-9 && p > 1e-9);
    double x = SampleFromExponential(p, l);
    vf_assert_eq(-x * l, std::log(1 - p), "the distribution function 1 - exp(-lambda x) equals the random number");
    if (p > 0) vf_assert(x > 0, "samples are positive"); else vf_assert(x == 0, "the lower limit is zero");
}
// ---------------------------------------------------------------- running mean and variance
VF_CONTRACT(welford) {
    // sums over the first n - 1 values
    int n = vf_int("n", 2, 1000);
    vf_assume(n >= 2);
    double N = n, s1 = vf_real("s1", -100, 100), s2 = vf_real("s2", 100, 200), v = vf_real("v", -5, 5);
    double mean = s1 / (N - 1), cov = s2 / (N - 1) - mean * mean;
    unsigned int it = n;
    auto r = welfords_online_algorithm(v, it, mean, cov);
    double m = (s1 + v) / N;
    vf_assert_eq(r.first + 100, m + 100, "running mean");
    vf_assert_eq(r.second + 1e4, (s2 + v * v) / N - m * m + 1e4, "running variance");
}
VF_CONTRACT(welford_first) {
    double v = vf_real("v", -5, 5), mean = vf_real("mean", -5, 5), cov = vf_real("cov", 0, 5);
    unsigned int it = 1;
    auto r = welfords_online_algorithm(v, it, mean, cov);
    vf_assert_eq(r.first, v, "mean of one value");
    vf_assert_eq(r.second + 1, 1, "variance of one value");
}
// ---------------------------------------------------------------- dilogarithm
// documented approximation on [0, 1/2]
static double core(double y) {
    static const double P[] = {0.9999999999999999502e+0, -2.6883926818565423430e+0, 2.6477222699473109692e+0, -1.1538559607887416355e+0, 2.0886077795020607837e-1, -1.0859777134152463084e-2};
    static const double Q[] = {1.0000000000000000000e+0, -2.9383926818565635485e+0, 3.2712093293018635389e+0, -1.7076702173954289421e+0, 4.1596017228400603836e-1, -3.9801343754084482956e-2, 8.2743668974466659035e-4};
    double p = 0, q = 0;
    for (int i = 5; i >= 0; --i) p = p * y + P[i];
    for (int i = 6; i >= 0; --i) q = q * y + Q[i];
    return y * p / q;
}
static double series(double y) { double s = 0, t = 1; for (int k = 1; k < 80; ++k) { t *= y; s += t / ((double)k * k); } return s; }
static void real_check(double x, double got) { // samples: against the power series and the integral representation
    if (vf_symbolic()) return;
    double want;
    if (std::fabs(x) <= 0.5) want = series(x);
    else { // -int_0^x log(1 - t) / t dt, beyond 1 the real part
        double lo = x > 1 ? (x < 2 ? 1 : 0.5) : (x > 0 ? 0.5 : -0.5);
        if (x > 1) { want = pi * pi / 3 - std::log(x) * std::log(x) / 2; double y = 1 / x; want -= y <= 0.5 ? series(y) : pi * pi / 6 - std::log(y) * std::log1p(-y) - series(1 - y); }
        else if (x > 0.5) want = pi * pi / 6 - std::log(x) * std::log1p(-x) - series(1 - x);
        else { double y = x / (x - 1); double l = std::log1p(-x); want = -0.5 * l * l - (y <= 0.5 ? series(y) : pi * pi / 6 - std::log(y) * std::log1p(-y) - series(1 - y)); }
        (void)lo;
    }
    vf_assert_eq_tol(got + 100, want + 100, "dilogarithm", 1e-12);
}
VF_CONTRACT(dilog_core) {
    double x = vf_real("x", 0, 0.5);
    vf_assume(0 < x); vf_assume(x < 0.5);
    double got = dilog(x);
    vf_assert_eq(got, core(x), "documented approximation");
    real_check(x, got);
}
VF_CONTRACT(dilog_reflection) {
    double x = vf_real("x", 0.5, 1);
    vf_assume(0.5 <= x); vf_assume(x < 1);
    double got = dilog(x);
    vf_assert_eq(got, pi * pi / 6 - std::log(x) * std::log(1 - x) - core(1 - x), "Li2(x) + Li2(1-x) = pi^2/6 - log x log(1-x)");
    real_check(x, got);
}
VF_CONTRACT(dilog_negative) {
    double x = vf_real("x", -1, 0);
    vf_assume(-1 < x); vf_assume(x < 0);
    double got = dilog(x);
    double l = std::log(1 - x);
    vf_assert_eq(got, -0.5 * l * l - core(x / (x - 1)), "Li2(x) + Li2(x/(x-1)) = -log(1-x)^2/2");
    real_check(x, got);
}
VF_CONTRACT(dilog_below_minus_one) {
    double x = vf_real("x", -50, -1);
    vf_assume(x < -1);
    double got = dilog(x);
    // inversion, then Landen for the argument 1/(1-x) of the core
    double l = std::log(1 - x);
    vf_assert_eq(got, -pi * pi / 6 + 0.5 * l * l - l * std::log(-x) + core(1 / (1 - x)), "Li2(x) = Li2(1/(1-x)) - pi^2/6 + log(1-x) (log(1-x)/2 - log(-x))");
    real_check(x, got);
}
VF_CONTRACT(dilog_one_two) {
    double x = vf_real("x", 1, 2);
    vf_assume(1 < x); vf_assume(x < 2);
    double got = dilog(x);
    double l = std::log(x);
    vf_assert_eq(got, pi * pi / 6 - l * (std::log(1 - 1 / x) + 0.5 * l) + core(1 - 1 / x), "Re Li2(x) = Li2(1-1/x) + pi^2/6 - log x (log(1-1/x) + log(x)/2)");
    real_check(x, got);
}
VF_CONTRACT(dilog_above_two) {
    double x = vf_real("x", 2, 100);
    vf_assume(2 <= x);
    double got = dilog(x);
    double l = std::log(x);
    vf_assert_eq(got, pi * pi / 3 - 0.5 * l * l - core(1 / x), "Re Li2(x) + Li2(1/x) = pi^2/3 - log(x)^2/2");
    real_check(x, got);
}
VF_CONTRACT(dilog_points) {
    vf_assert_eq(dilog(0) + 1, 1, "Li2(0) = 0");
    vf_assert_eq(dilog(1), pi * pi / 6, "Li2(1) = pi^2/6");
    vf_assert_eq(dilog(-1), -pi * pi / 12, "Li2(-1) = -pi^2/12");
}
