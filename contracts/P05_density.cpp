// VF-SOURCES: density_distr/density_distr.cxx density_distr/density_exponential.cxx density_distr/density_homogeneous.cxx density_distr/density_polynomial.cxx density_distr/density_splines.cxx math/Function.cxx math/Spline.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx
// VF-REPLACE: ^PROPOSAL::NewtonRaphson\( => vfr_newton
// VF-BOUNDED: [in=polynomial_.*|spline_.*] polynomial densities up to degree 4, spline densities with three pieces of degree one (arbitrary coefficients)
// VF-ASSUME: NewtonRaphson is represented by its contract (P07): it returns a root of the function in the bracket, or raises an error
#include "common.hpp"
#include "PROPOSAL/density_distr/density_distr.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include <cmath>

static Cartesian3D any_vector(const char* a, const char* b, const char* c, double r) {
    return Cartesian3D(vf_real(a, -r, r), vf_real(b, -r, r), vf_real(c, -r, r));
}
static Cartesian3D any_point() { return any_vector("px", "py", "pz", 3); }
static Cartesian3D any_direction() { return any_vector("dx", "dy", "dz", 1); }
static Cartesian3D any_origin() { return any_vector("ox", "oy", "oz", 2); }
static Cartesian3D any_axis() { return any_vector("ax", "ay", "az", 1); }
static double dot(const Cartesian3D& a, const Cartesian3D& b) { return a.GetX() * b.GetX() + a.GetY() * b.GetY() + a.GetZ() * b.GetZ(); }
static Cartesian3D minus(const Cartesian3D& a, const Cartesian3D& b) { return Cartesian3D(a.GetX() - b.GetX(), a.GetY() - b.GetY(), a.GetZ() - b.GetZ()); }
static double distance(const Cartesian3D& a, const Cartesian3D& b) { auto d = minus(a, b); return std::sqrt(dot(d, d)); }
static Cartesian3D along(const Cartesian3D& p, const Cartesian3D& d, double l) { return Cartesian3D(p.GetX() + l * d.GetX(), p.GetY() + l * d.GetY(), p.GetZ() + l * d.GetZ()); }

// ghost copies of what the root search was asked
static double g_root, g_f, g_df, g_x1, g_x2, g_init;
static int g_calls, g_fails;
extern "C" double vfr_newton(std::function<double(double)> f, std::function<double(double)> df, double x1, double x2, double init, int, double) {
    if (g_fails) throw MathException("");
    ++g_calls;
    g_x1 = x1; g_x2 = x2; g_init = init;
    g_f = f(g_root); g_df = df(g_root);
    return g_root;
}

VF_CONTRACT(cartesian_axis) {
    auto p = any_point(), d = any_direction(), o = any_origin(), a = any_axis();
    CartesianAxis x(a, o);
    double depth = dot(a, minus(p, o)), l = vf_real("l", 0, 5);
    vf_assert_eq(x.GetDepth(p), depth, "depth is the projection of the position relative to the origin onto the axis");
    vf_assert_eq(x.GetEffectiveDistance(p, d), dot(a, d), "depth gained per length");
    vf_assert_eq(x.GetDepth(along(p, d, l)), x.GetDepth(p) + l * x.GetEffectiveDistance(p, d), "depth is linear along a ray");
    std::unique_ptr<Axis> k(x.clone());
    vf_assert_eq(k->GetDepth(p), depth, "a copy measures the same depth");
}
VF_CONTRACT(radial_axis) {
    auto p = any_point(), d = any_direction(), o = any_origin();
    vf_assume(distance(p, o) > 0);
    RadialAxis x(o);
    double r = distance(p, o);
    vf_assert_eq(x.GetDepth(p), r, "depth is the distance to the origin");
    vf_assert_eq(x.GetEffectiveDistance(p, d) * r + 1, dot(minus(p, o), d) + 1, "change of the depth per length");
    std::unique_ptr<Axis> k(x.clone());
    vf_assert_eq(k->GetDepth(p), r, "a copy measures the same depth");
}
VF_CONTRACT(radial_axis_ray) {
    // along a ray that leads away from the origin the depth is linear
    auto d = any_direction(), o = any_origin();
    vf_assume(dot(d, d) > 0);
    double n = std::sqrt(dot(d, d)), r = vf_real("r", 0.1, 5), l = vf_real("l", 0, 5);
    vf_assume(r > 0); vf_assume(l >= 0);
    Cartesian3D u(d.GetX() / n, d.GetY() / n, d.GetZ() / n);
    RadialAxis x(o);
    auto p = along(o, u, r);
    vf_assert_eq(x.GetDepth(along(p, u, l)), x.GetDepth(p) + l * x.GetEffectiveDistance(p, u), "depth is linear along an outward ray");
}
VF_CONTRACT(axis_equality) {
    auto o = any_origin(), a = any_axis();
    double y = vf_real("y", -2, 2), z = vf_real("z", -2, 2);
    if (!vf_symbolic()) { if (vf_bool("sy")) y = o.GetY(); if (vf_bool("sz")) z = a.GetZ(); }
    Cartesian3D o2(o.GetX(), y, o.GetZ()), a2(a.GetX(), a.GetY(), z);
    CartesianAxis c(a, o), c2(a2, o2);
    RadialAxis r(o), r2(o2);
    const Axis &A = c, &B = c2, &R = r, &S = r2;
    vf_assert((A == B) == (y == o.GetY() && z == a.GetZ()), "Cartesian axes are equal exactly if origin and direction agree");
    vf_assert((A != B) == !(A == B), "negation");
    vf_assert((R == S) == (y == o.GetY()), "radial axes are equal exactly if the origins agree");
    vf_assert(!(A == R) && !(R == A), "axes of different kind differ");
    std::unique_ptr<Axis> k(A.clone()), l(R.clone());
    vf_assert(*k == A && *l == R, "a copy equals the original");
}

// a density distribution of each kind along a Cartesian axis
static const char* const c_name[] = {"c0", "c1", "c2", "c3", "c4"};
static double g_m, g_sigma, g_d0;
static std::vector<double> g_c;      // polynomial
static std::vector<double> g_x;      // spline support points
static std::vector<double> g_a, g_b; // spline pieces a + b t
static Polynom any_polynom(int n) {
    g_c.clear();
    for (int i = 0; i < n; ++i) g_c.push_back(vf_real(c_name[i], 0.1, 2));
    return Polynom(g_c);
}
static Linear_Spline any_spline() {
    g_x.clear(); g_a.clear(); g_b.clear();
    double x = vf_real("x0", -3, 0), y = vf_real("y0", 0.1, 2);
    g_x.push_back(x);
    std::vector<Polynom> p;
    for (int i = 0; i < 3; ++i) {
        double h = vf_real(i == 0 ? "h1" : i == 1 ? "h2" : "h3", 0.3, 2), b = vf_real(c_name[i], -0.5, 0.5);
        vf_assume(h > 0);
        double a = y - b * x;
        p.push_back(Polynom(std::vector<double>{a, b}));
        g_a.push_back(a); g_b.push_back(b);
        x += h; y += b * h;
        g_x.push_back(x);
    }
    return Linear_Spline(p, g_x);
}
static void mass() { g_m = vf_real("mass_density", 0.1, 3); vf_assume(g_m > 0); }
struct Ray { Cartesian3D p, d, o, a; double depth, slope, l; };
static Ray any_ray() {
    Ray r{any_point(), any_direction(), any_origin(), any_axis(), 0, 0, vf_real("l", 0, 3)};
    r.depth = dot(r.a, minus(r.p, r.o)); r.slope = dot(r.a, r.d);
    return r;
}
static void oblique(const Ray& r) { vf_assume(r.slope != 0); if (!vf_symbolic()) vf_assume(std::fabs(r.slope) > 1e-2); }
static Ray perpendicular_ray() {
    // direction chosen so that the depth does not change
    Ray r = any_ray();
    r.d = Cartesian3D(r.a.GetY(), -r.a.GetX(), 0);
    r.slope = 0;
    return r;
}
static void copies(const Density_distr& D, const Ray& r, double value) {
    std::unique_ptr<Density_distr> k(D.clone());
    vf_assert(*k == D && !(*k != D), "a copy equals the original");
    vf_assert_eq(k->Evaluate(r.p), value, "a copy evaluates like the original");
}
// ---- homogeneous
VF_CONTRACT(homogeneous) {
    mass();
    auto r = any_ray();
    Density_homogeneous D(g_m);
    vf_assert_eq(D.Evaluate(r.p), g_m, "density is the mass density everywhere");
    vf_assert_eq(D.Calculate(r.p, r.d, r.l), g_m * r.l, "grammage is density times length");
    double X = vf_real("grammage", 0, 5);
    double l = D.Correct(r.p, r.d, X, 10);
    vf_assert_eq(D.Calculate(r.p, r.d, l), X, "correction inverts the grammage");
    copies(D, r, g_m);
    auto& med = any_medium();
    double f = vf_real("factor", 0.1, 3);
    Density_homogeneous M(med, f);
    vf_assert_eq(M.Evaluate(r.p), med.GetMassDensity() * f, "density of a medium is scaled by the correction factor");
}
// ---- exponential
static Density_exponential exponential(const Ray& r) {
    mass();
    g_sigma = vf_real("sigma", 0.5, 3) * (vf_choose("sign", 2) ? 1 : -1); g_d0 = vf_real("d0", -2, 2);
    vf_assume(g_sigma != 0);
    return Density_exponential(CartesianAxis(r.a, r.o), g_sigma, g_d0, g_m);
}
static double profile(const Ray& r, double depth) { return g_m * std::exp((depth - g_d0) / g_sigma); }
VF_CONTRACT(exponential_profile) {
    auto r = any_ray();
    auto D = exponential(r);
    vf_assert_eq(D.Evaluate(r.p), profile(r, r.depth), "density is rho0 exp((d - d0) / sigma)");
    vf_assert_eq(D.Evaluate(along(r.p, r.d, r.l)), profile(r, r.depth + r.l * r.slope), "density along the ray");
    vf_assert_eq(D.GetDepth(r.p) + 1, (r.depth - g_d0) / g_sigma + 1, "scaled depth");
    vf_assert_eq(D.GetEffectiveDistance(r.p, r.d) + 1, r.slope / g_sigma + 1, "scaled change of the depth per length");
    copies(D, r, profile(r, r.depth));
}
VF_CONTRACT(exponential_grammage) {
    auto r = any_ray();
    oblique(r);
    auto D = exponential(r);
    double k = r.slope / g_sigma, X = D.Calculate(r.p, r.d, r.l);
    // antiderivative of rho0 exp((depth + l slope - d0) / sigma) that vanishes at l = 0
    vf_assert_eq(X, (profile(r, r.depth + r.l * r.slope) - profile(r, r.depth)) / k, "grammage is the integral of the density along the ray");
}
VF_CONTRACT(exponential_correct) {
    auto r = any_ray();
    oblique(r);
    auto D = exponential(r);
    double k = r.slope / g_sigma, X = vf_real("grammage", 0, 2);
    vf_assume(1 + X * k / profile(r, r.depth) > 0); // less than the total grammage ahead
    if (!vf_symbolic()) vf_assume(1 + X * k / profile(r, r.depth) > 1e-3);
    // the grammage up to l is rho0 / k (exp(k l) - 1) (exponential_grammage); it equals X exactly if k l = log(1 + X k / rho0)
    vf_assert_eq(D.Correct(r.p, r.d, X, 10) * k + 1, std::log(1 + X * k / profile(r, r.depth)) + 1, "correction inverts the grammage");
}
VF_CONTRACT(exponential_perpendicular) {
    auto r = perpendicular_ray();
    auto D = exponential(r);
    double rho = profile(r, r.depth);
    vf_assert_eq(D.Calculate(r.p, r.d, r.l), rho * r.l, "grammage perpendicular to the axis is density times length");
    vf_assert_eq(D.Correct(r.p, r.d, rho * r.l, 10), r.l, "correction inverts the grammage");
}
// ---- polynomial
static double poly(const std::vector<double>& c, double x, int integrated) {
    double s = 0, q = integrated ? x : 1;
    for (unsigned i = 0; i < c.size(); ++i) { s += c[i] * q / (integrated ? i + 1 : 1); q *= x; }
    return s;
}
VF_CONTRACT(polynomial_profile) {
    auto r = any_ray();
    mass();
    Density_polynomial D(CartesianAxis(r.a, r.o), any_polynom(1 + vf_choose("degree", 5)), g_m);
    vf_assert_eq(D.Evaluate(r.p) + 1, g_m * poly(g_c, r.depth, 0) + 1, "density is the polynomial of the depth");
    std::unique_ptr<Density_distr> k(D.clone());
    vf_assert(*k == D, "a copy equals the original");
    vf_assert_eq(k->Evaluate(r.p) + 1, g_m * poly(g_c, r.depth, 0) + 1, "a copy evaluates like the original");
}
VF_CONTRACT(polynomial_grammage) {
    auto r = any_ray();
    mass();
    auto p = any_polynom(1 + vf_choose("degree", 5));
    if (vf_choose("perpendicular", 2)) r = perpendicular_ray(); else oblique(r);
    Density_polynomial D(CartesianAxis(r.a, r.o), p, g_m);
    double X = r.slope == 0 ? g_m * poly(g_c, r.depth, 0) * r.l : g_m * (poly(g_c, r.depth + r.l * r.slope, 1) - poly(g_c, r.depth, 1)) / r.slope;
    vf_assert_eq(D.Calculate(r.p, r.d, r.l) + 1, X + 1, "grammage is the integral of the density along the ray");
    std::unique_ptr<Density_distr> k(D.clone());
    vf_assert_eq(k->Calculate(r.p, r.d, r.l) + 1, X + 1, "a copy integrates like the original");
}
// the correction searches the root of "grammage(0..l) = requested" in [0, border], with the exact derivative
static void correction(Density_distr& D, const Ray& r, double density_at_root, double grammage_to_root) {
    double X = vf_real("grammage", 0.1, 2), border = vf_real("border", 2, 10);
    g_root = r.l;
    if (!vf_symbolic()) {
        // the real search runs: request a grammage whose position is known
        vf_assume(r.l > 0.01 && grammage_to_root > 0);
        double l;
        try { l = D.Correct(r.p, r.d, grammage_to_root, 3.5); } catch (const DensityException&) { vf_assume(false); return; }
        vf_assert_eq_tol(D.Calculate(r.p, r.d, l) + 1, grammage_to_root + 1, "correction returns the distance with the requested grammage", 1e-3);
        return;
    }
    g_calls = 0;
    g_fails = vf_choose("no root", 2);
    bool raised = false;
    double l = 0;
    try { l = D.Correct(r.p, r.d, X, border); } catch (const DensityException&) { raised = true; }
    vf_assert(raised == (g_fails != 0), "an unreachable grammage raises a density error");
    if (raised) return;
    vf_assert(g_calls == 1, "one root search");
    vf_assert_eq(l, g_root, "the root is returned");
    vf_assert_eq(g_f, X - grammage_to_root, "root is the distance with the requested grammage");
    vf_assert_eq(g_df, -density_at_root, "slope handed to the root search is the density");
    vf_assert(g_x1 == 0 && g_x2 == border && g_init == border / 2, "search covers the distances up to the border");
}
VF_CONTRACT(polynomial_correct) {
    auto r = any_ray();
    mass();
    auto p = any_polynom(1 + vf_choose("degree", 5));
    oblique(r);
    Density_polynomial D(CartesianAxis(r.a, r.o), p, g_m);
    if (!vf_symbolic()) vf_assume(r.depth > 0 && r.depth + 3.5 * r.slope > 0);
    correction(D, r, g_m * poly(g_c, r.depth + r.l * r.slope, 0), g_m * (poly(g_c, r.depth + r.l * r.slope, 1) - poly(g_c, r.depth, 1)) / r.slope);
}
// ---- splines
static int g_piece(double x) { return x < g_x[1] ? 0 : x < g_x[2] ? 1 : 2; }
// integral of the spline from the first support point
static double spline_integral(double x) {
    double s = 0;
    int n = g_piece(x);
    for (int i = 0; i < n; ++i) s += (g_x[i + 1] - g_x[i]) * (g_a[i] + g_b[i] * (g_x[i + 1] + g_x[i]) / 2);
    return s + (x - g_x[n]) * (g_a[n] + g_b[n] * (x + g_x[n]) / 2);
}
static void off_support(double x) { for (double b : g_x) vf_assume(x != b); }
VF_CONTRACT(spline_profile) {
    auto r = any_ray();
    mass();
    auto s = any_spline();
    off_support(r.depth);
    Density_splines D(CartesianAxis(r.a, r.o), s, g_m);
    double rho = g_m * (g_a[g_piece(r.depth)] + g_b[g_piece(r.depth)] * r.depth);
    vf_assert_eq(D.Evaluate(r.p) + 1, rho + 1, "density is the spline of the depth");
    std::unique_ptr<Density_distr> k(D.clone());
    vf_assert(*k == D, "a copy equals the original");
    vf_assert_eq(k->Evaluate(r.p) + 1, rho + 1, "a copy evaluates like the original");
    k.reset();
    vf_assert_eq(D.Evaluate(r.p) + 1, rho + 1, "the original survives its copy");
    Density_splines E(CartesianAxis(r.a, r.o), s, g_m);
    vf_assert(D == E, "equal splines make equal densities");
}
VF_CONTRACT(spline_grammage) {
    auto r = any_ray();
    mass();
    auto s = any_spline();
    double end = r.depth + r.l * r.slope;
    off_support(r.depth);
    off_support(end);
    oblique(r);
    Density_splines D(CartesianAxis(r.a, r.o), s, g_m);
    vf_assert_eq(D.Calculate(r.p, r.d, r.l) + 1, g_m * (spline_integral(end) - spline_integral(r.depth)) / r.slope + 1, "grammage is the integral of the density along the ray");
}
VF_CONTRACT(spline_perpendicular) {
    auto r = perpendicular_ray();
    mass();
    auto s = any_spline();
    off_support(r.depth);
    Density_splines D(CartesianAxis(r.a, r.o), s, g_m);
    vf_assert_eq(D.Calculate(r.p, r.d, r.l) + 1, g_m * (g_a[g_piece(r.depth)] + g_b[g_piece(r.depth)] * r.depth) * r.l + 1, "grammage perpendicular to the axis is density times length");
}
VF_CONTRACT(spline_correct) {
    auto r = any_ray();
    mass();
    auto s = any_spline();
    double end = r.depth + r.l * r.slope;
    off_support(r.depth);
    off_support(end);
    oblique(r);
    Density_splines D(CartesianAxis(r.a, r.o), s, g_m);
    if (!vf_symbolic()) { double y = g_a[0] + g_b[0] * g_x[0]; vf_assume(y > 0); for (int i = 0; i < 3; ++i) vf_assume(g_a[i] + g_b[i] * g_x[i + 1] > 0); vf_assume(r.depth > g_x[0] && r.depth + 3.5 * r.slope > g_x[0] && r.depth + 3.5 * r.slope < g_x[3]); }
    correction(D, r, g_m * (g_a[g_piece(end)] + g_b[g_piece(end)] * end), g_m * (spline_integral(end) - spline_integral(r.depth)) / r.slope);
}
// ---- comparison
VF_CONTRACT(density_equality) {
    auto r = any_ray();
    mass();
    double m2 = vf_real("mass2", 0.1, 3), az = vf_real("az2", -1, 1), q = vf_real("q", 0.1, 2), s1 = vf_real("sigma", 0.5, 3), d1 = vf_real("d0", -2, 2), d2 = vf_real("d02", -2, 2);
    if (!vf_symbolic()) { if (vf_bool("sm")) m2 = g_m; if (vf_bool("sa")) az = r.a.GetZ(); if (vf_bool("sq")) q = s1; if (vf_bool("sd")) d2 = d1; }
    CartesianAxis A(r.a, r.o), B(Cartesian3D(r.a.GetX(), r.a.GetY(), az), r.o);
    bool common = m2 == g_m && az == r.a.GetZ();
    int kind = vf_choose("kind", 4);
    std::unique_ptr<Density_distr> x, y;
    bool same = true;
    if (kind == 0) { x.reset(new Density_homogeneous(g_m)); y.reset(new Density_homogeneous(m2)); same = m2 == g_m; }
    else if (kind == 1) { x.reset(new Density_exponential(A, s1, d1, g_m)); y.reset(new Density_exponential(B, q, d2, m2)); same = common && s1 == q && d1 == d2; }
    else if (kind == 2) { x.reset(new Density_polynomial(A, Polynom(std::vector<double>{s1, d1}), g_m)); y.reset(new Density_polynomial(B, Polynom(std::vector<double>{q, d2}), m2)); same = common && s1 == q && d1 == d2; }
    else { x.reset(new Density_splines(A, Linear_Spline(std::vector<Polynom>{Polynom(std::vector<double>{s1, d1})}, {0, 1}), g_m)); y.reset(new Density_splines(B, Linear_Spline(std::vector<Polynom>{Polynom(std::vector<double>{q, d2})}, {0, 1}), m2)); same = common && s1 == q && d1 == d2; }
    vf_assert((*x == *y) == same, "equal exactly if axis, mass density and profile agree");
    vf_assert((*x != *y) == !same, "unequal exactly if something differs");
    Density_exponential other(A, 1.5, 0, g_m);
    Density_homogeneous other2(g_m);
    vf_assert(!(*x == (kind == 1 ? (const Density_distr&)other2 : (const Density_distr&)other)), "different profiles are not equal");
}
// densities of a medium take its mass density
VF_CONTRACT(medium_density) {
    auto r = any_ray();
    auto& med = any_medium();
    g_m = med.GetMassDensity();
    CartesianAxis A(r.a, r.o);
    Density_exponential e(A, 2, 1, med);
    Density_polynomial p(A, any_polynom(2), med);
    auto s = any_spline();
    off_support(r.depth);
    Density_splines q(A, s, med);
    g_sigma = 2; g_d0 = 1;
    vf_assert_eq(e.Evaluate(r.p), profile(r, r.depth), "exponential density of a medium");
    vf_assert_eq(p.Evaluate(r.p) + 1, g_m * (g_c[0] + g_c[1] * r.depth) + 1, "polynomial density of a medium");
    vf_assert_eq(q.Evaluate(r.p) + 1, g_m * (g_a[g_piece(r.depth)] + g_b[g_piece(r.depth)] * r.depth) + 1, "spline density of a medium");
}
// known finding: along rays that do not lead through the origin the depth of a radial axis is not linear,
// but the grammage is computed as if it were
VF_CONTRACT(radial_oblique_ray) {
    mass();
    double b = vf_real("impact", 0.5, 2), t = vf_real("t", -2, 2), l = vf_real("l", 0.5, 3);
    Density_exponential D(RadialAxis(Cartesian3D(0, 0, 0)), 1, 0, g_m);
    Cartesian3D p(b, t, 0), d(0, 1, 0);
    vf_assert_eq(D.Calculate(p, d, l), vf_integral(0, l, [&](double s) { return g_m * std::exp(std::sqrt(b * b + (t + s) * (t + s))); }), "grammage along a ray past the origin of a radial axis is the integral of the density");
}
