// VF-SOURCES: scattering/multiple_scattering/Highland.cxx scattering/multiple_scattering/Parametrization.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::normalppf\(double\) => vfr_ppf
// VF-ASSUME: normalppf is represented by an uninterpreted function of its argument (its value is the subject of P08)
#include "common.hpp"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
using namespace PROPOSAL::multiple_scattering;
extern "C" double vfr_ppf(double p) { return vf_uf1("ppf", p); }
static double ppf(double p) { return vf_symbolic() ? vf_uf1("ppf", p) : normalppf(p); }

struct Setup { double m, z, X, y, E, Ef; ParticleDef p; Medium* med; };
static Setup setup() {
    double m = vf_real("mass", 0.5, 2000), z = vf_real("charge", -2, 2);
    vf_assume(m > 0);
    auto& med = any_medium();
    double y = vf_symbolic() ? vf_real("grammage", 0, 1) : std::pow(10., vf_real("log_grammage", -12, 4)), E = vf_real("E", 1, 1e9), Ef = vf_real("Ef", 1, 1e9);
    vf_assume(y > 0); vf_assume(E > m);
    return Setup{m, z, med.GetRadiationLength(), y, E, Ef, particle_of_mass(m, z), &med};
}
// Lynch and Dahl, NIM B58 (1991), eq. 6: the width uses the initial energy only
static double theta0(const Setup& s) {
    double x = s.y / s.X, bp = (s.E * s.E - s.m * s.m) / s.E;
    return 13.6 * std::abs(s.z) / bp * std::sqrt(x) * std::max(1. + 0.088 * std::log10(x), 0.);
}
VF_CONTRACT(highland_width) {
    auto s = setup();
    Highland h(s.p, *s.med);
    double w = h.CalculateTheta0(s.y, s.E, s.Ef);
    vf_cover("reached");
    vf_assert_eq(w, theta0(s), "Highland width is 13.6 MeV |z|/(beta p) sqrt(x/X0) (1 + 0.088 log10(x/X0))");
    vf_assert_eq(h.CalculateTheta0(s.y, s.E, 2 * s.Ef), w, "width depends on the initial energy only");
}
VF_CONTRACT(highland_angles) {
    auto s = setup();
    Highland h(s.p, *s.med);
    std::array<double, 4> r{vf_real("r0", 0.001, 0.999), vf_real("r1", 0.001, 0.999), vf_real("r2", 0.001, 0.999), vf_real("r3", 0.001, 0.999)};
    for (double x : r) { vf_assume(x > 0); vf_assume(x < 1); }
    double w = h.CalculateTheta0(s.y, s.E, s.Ef);
    auto o = h.CalculateRandomAngle(s.y, s.E, s.Ef, r);
    double g0 = w * ppf(r[0]), g1 = w * ppf(r[1]), g2 = w * ppf(r[2]), g3 = w * ppf(r[3]);
    vf_cover("reached");
    vf_assert_eq(o.tx, g1, "final angle in x");
    vf_assert_eq(o.ty, g3, "final angle in y");
    vf_assert_eq(o.sx, g0 / std::sqrt(12.) + g1 / 2, "mean offset in x is correlated with the final angle");
    vf_assert_eq(o.sy, g2 / std::sqrt(12.) + g3 / 2, "mean offset in y is correlated with the final angle");
    vf_assert_eq(h.CalculateScatteringAngle(s.y, s.E, s.Ef, r[0]), g0, "single scattering angle");
    double t = h.CalculateScatteringAngle2D(s.y, s.E, s.Ef, r[0], r[1]);
    vf_assert_eq(t * t, g0 * g0 + g1 * g1, "scattering angle in space combines two independent angles");
    vf_assert(t >= 0, "scattering angle in space is not negative");
    vf_assert_eq(h.clone()->CalculateScatteringAngle(s.y, s.E, s.Ef, r[2]), g2, "copy scatters like the original");
}
VF_CONTRACT(highland_equality) {
    auto s = setup();
    double m2 = vf_real("mass2", 0.5, 2000), z2 = vf_real("charge2", -2, 2);
    vf_assume(m2 > 0);
    if (!vf_symbolic()) { if (vf_bool("sm")) m2 = s.m; if (vf_bool("sz")) z2 = s.z; }
    Highland a(s.p, *s.med);
    double X = s.X, X2 = vf_real("X2", 5, 70);
    if (!vf_symbolic() && vf_bool("sx")) X2 = X;
    s.med->radiationLength_ = X2;
    Highland b(ParticleDef("other", m2, m2, -1, z2, HardComponentTables::EmptyTable, DecayTable(), 900001, 0), *s.med);
    const Parametrization &pa = a, &pb = b;
    vf_assert((pa == pb) == (s.m == m2 && s.z == z2 && X == X2), "equal exactly if mass, charge and radiation length agree");
    vf_assert(pa == *a.clone(), "a copy equals the original");
}
static ScatteringOffset any_offset() {
    ScatteringOffset o;
    o.sx = vf_real("sx", -0.7, 0.7); o.sy = vf_real("sy", -0.7, 0.7); o.tx = vf_real("tx", -0.7, 0.7); o.ty = vf_real("ty", -0.7, 0.7);
    vf_assume(o.sx * o.sx + o.sy * o.sy <= 1); vf_assume(o.tx * o.tx + o.ty * o.ty <= 1);
    return o;
}
static void rotated(const Cartesian3D& v, double x, double y, double ph, double th, const char* what, const char* unit) {
    double z = std::sqrt(1 - x * x - y * y);
    vf_assert_eq(v.GetX(), z * std::sin(th) * std::cos(ph) + x * std::cos(th) * std::cos(ph) - y * std::sin(ph), what);
    vf_assert_eq(v.GetY(), z * std::sin(th) * std::sin(ph) + x * std::cos(th) * std::sin(ph) + y * std::cos(ph), what);
    vf_assert_eq(v.GetZ(), z * std::cos(th) - x * std::sin(th), what);
    vf_assert_eq(v * v, 1, unit);
}
VF_CONTRACT(scatter_direction) {
    auto o = any_offset();
    double ph = vf_real("phi", -3.1, 3.1), th = vf_real("theta", 0, 3.14);
    vf_assume(th >= 0); vf_assume(th <= PI);
    auto r = ScatterInitialDirection(Spherical3D(1, ph, th), o);
    vf_cover("reached");
    rotated(r.first, o.sx, o.sy, ph, th, "mean direction is the rotated initial direction", "mean direction is a unit vector");
    rotated(r.second, o.tx, o.ty, ph, th, "final direction is the rotated initial direction", "final direction is a unit vector");
}
VF_CONTRACT(scatter_cartesian_direction) {
    auto o = any_offset();
    double x = vf_real("x", -0.7, 0.7), y = vf_real("y", -0.7, 0.7);
    vf_assume(x * x + y * y < 1); vf_assume(x * x + y * y > 0);
    double z = (vf_choose("hemisphere", 2) ? 1 : -1) * std::sqrt(1 - x * x - y * y);
    Cartesian3D d(x, y, z);
    auto r = ScatterInitialDirection(d, o);
    vf_cover("reached");
    vf_assert_eq(r.first * r.first, 1, "mean direction is a unit vector");
    vf_assert_eq(r.second * r.second, 1, "final direction is a unit vector");
    vf_assert_eq(r.first * d, std::sqrt(1 - o.sx * o.sx - o.sy * o.sy), "mean direction encloses the offset angle");
    vf_assert_eq(r.second * d, std::sqrt(1 - o.tx * o.tx - o.ty * o.ty), "final direction encloses the scattering angle");
}
// a multiple scattering calculator with arbitrary outcome
struct AnyScatter : public Parametrization {
    ScatteringOffset o;
    AnyScatter(const ScatteringOffset& x) : o(x) {}
    std::unique_ptr<Parametrization> clone() const override { return std::make_unique<AnyScatter>(*this); }
    bool compare(const Parametrization&) const override { return false; }
    void print(std::ostream&) const override {}
    ScatteringOffset CalculateRandomAngle(double, double, double, const std::array<double, 4>&) override { return o; }
    double CalculateScatteringAngle(double, double, double, double) override { return 0; }
    double CalculateScatteringAngle2D(double, double, double, double, double) override { return 0; }
};
VF_CONTRACT(multiple_scattering_multiplier) {
    auto o = any_offset();
    double f = vf_real("factor", 0, 3);
    auto none = std::vector<std::unique_ptr<stochastic_deflection::Parametrization>>();
    Scattering plain(std::make_unique<AnyScatter>(o), std::move(none));
    ScatteringMultiplier scaled(std::make_unique<AnyScatter>(o), std::vector<std::unique_ptr<stochastic_deflection::Parametrization>>(), f, std::vector<std::pair<InteractionType, double>>());
    Scattering off(nullptr, nullptr);
    std::array<double, 4> r{.1, .2, .3, .4};
    auto a = plain.CalculateMultipleScattering(1., 2., 1., r), b = scaled.CalculateMultipleScattering(1., 2., 1., r), c = off.CalculateMultipleScattering(1., 2., 1., r);
    vf_cover("reached");
    vf_assert_eq(a.sx, o.sx, "unscaled offset"); vf_assert_eq(a.sy, o.sy, "unscaled offset");
    vf_assert_eq(a.tx, o.tx, "unscaled final angle"); vf_assert_eq(a.ty, o.ty, "unscaled final angle");
    vf_assert_eq(b.sx, f * o.sx, "scaled offset"); vf_assert_eq(b.sy, f * o.sy, "scaled offset");
    vf_assert_eq(b.tx, f * o.tx, "scaled final angle"); vf_assert_eq(b.ty, f * o.ty, "scaled final angle");
    vf_assert_eq(c.sx, 0, "no scattering"); vf_assert_eq(c.sy, 0, "no scattering");
    vf_assert_eq(c.tx, 0, "no scattering"); vf_assert_eq(c.ty, 0, "no scattering");
    vf_assert(plain.MultipleScatteringRandomNumbers() == 4, "four random numbers are needed");
    vf_assert(off.MultipleScatteringRandomNumbers() == 0, "no random numbers are needed");
}
