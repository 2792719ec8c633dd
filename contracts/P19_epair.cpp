// VF-SOURCES: crosssection/parametrization/EpairProduction.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::dilog\( => vfr_dilog
// VF-REPLACE: ^PROPOSAL::crosssection::EpairLPM::suppression_factor\( => vfr_suppression
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/math/MathMethods.h"
#include <algorithm>
using namespace PROPOSAL::crosssection;

extern "C" double vfr_dilog(double x) { return vf_uf1("Li2", x); }
extern "C" double vfr_suppression(const EpairLPM*, double E, double v, double r2, double b, double x, double dc) {
    double s = vf_uf2("epair_lpm", vf_uf3("epair_lpm1", E, v, r2), vf_uf3("epair_lpm2", b, x, dc));
    vf_assume(s > 0);
    return s;
}

struct Kin { double E, v, rho, m, z, Z, A, B; };
static Kin kin(const ParticleDef& p, const Component& c) {
    Kin k{vf_real("E", 1e2, 1e9), vf_real("v", 1e-6, 1), vf_real("rho", 0, 1), p.mass, p.charge, c.GetNucCharge(), c.GetAtomicNum(), c.GetLogConstant()};
    vf_assume(k.E > k.m);
    vf_assume(0 < k.v);
    vf_assume(k.v < 1);
    vf_assume(0 <= k.rho);
    vf_assume(k.rho < 1);
    return k;
}
// contribution of atomic electrons, Kelner, Phys. Atom. Nucl. 61 (1998) 448
static double zeta(const Kin& k) {
    double g = k.E / k.m, Z13 = std::cbrt(k.Z);
    double z1 = 0.073 * std::log(g / (1 + (k.Z == 1 ? 4.4e-5 : 1.95e-5) * Z13 * Z13 * g)) - 0.26;
    double z2 = 0.058 * std::log(g / (1 + (k.Z == 1 ? 4.8e-5 : 5.3e-5) * Z13 * g)) - 0.14;
    return z1 > 0 && z2 > 0 ? z1 / z2 : 0;
}
static double kkp(const Kin& k, double lpm) {
    double r2 = k.rho * k.rho, v = k.v, be = v * v / (2 * (1 - v)), xi = sq(k.m * v / (2 * ME)) * (1 - r2) / (1 - v);
    double Z3 = std::pow(k.Z, -1. / 3), se = std::sqrt(std::exp(1.));
    double Ye = (5 - r2 + 4 * be * (1 + r2)) / (2 * (1 + 3 * be) * std::log(3 + 1 / xi) - r2 - 2 * be * (2 - r2));
    double Ym = (4 + r2 + 3 * be * (1 + r2)) / ((1 + r2) * (1.5 + 2 * be) * std::log(3 + xi) + 1 - 1.5 * r2);
    double scr = 2 * ME * se * k.B * Z3 / (k.E * v * (1 - r2));
    double Le = std::log(k.B * Z3 * std::sqrt((1 + xi) * (1 + Ye)) / (1 + scr * (1 + xi) * (1 + Ye)))
        - 0.5 * std::log(1 + sq(1.5 * ME / (k.m * Z3)) * (1 + xi) * (1 + Ye));
    double Lm = std::log(2. / 3 * k.m / ME * k.B * Z3 * Z3 / (1 + scr * (1 + xi) * (1 + Ym)));
    double Fe = 0, Fm = 0;
    if (Le > 0) {
        if (1 / xi < HALF_PRECISION) Fe = (1.5 - r2 / 2 + be * (1 + r2)) / xi * Le; // limit of large xi
        else Fe = (((2 + r2) * (1 + be) + xi * (3 + r2)) * std::log(1 + 1 / xi) + (1 - r2 - be) / (1 + xi) - (3 + r2)) * Le;
    }
    if (Lm > 0)
        Fm = (((1 + r2) * (1 + 1.5 * be) - (1 + 2 * be) * (1 - r2) / xi) * std::log(1 + xi) + xi * (1 - r2 - be) / (1 + xi) + (1 + 2 * be) * (1 - r2)) * Lm;
    double r = 4. / (3 * PI) * k.Z * (k.Z + zeta(k)) * sq(ALPHA * RE * k.z) * (1 - v) / v * (Fe + sq(k.z * ME / k.m) * Fm) * lpm;
    return r < 0 ? 0 : r;
}
VF_CONTRACT(epair_kelner_kokoulin_petrukhin) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    EpairKelnerKokoulinPetrukhin e(false);
    vf_cover("reached");
    vf_assert_eq(e.FunctionToIntegral(p, c, k.E, k.v, 1 - k.rho), kkp(k, 1), "Kelner-Kokoulin-Petrukhin pair production d2sigma/dv drho");
}
static double ssr(const Kin& k, double lpm) {
    double r2 = k.rho * k.rho, v = k.v, be = v * v / (2 * (1 - v)), xi = sq(k.m * v / (2 * ME)) * (1 - r2) / (1 - v);
    double Z3 = std::pow(k.Z, -1. / 3), Dn = 1.54 * std::pow(k.A, 0.27), BZ = k.B * Z3;
    double pre = 4. / (3 * PI) * k.Z * sq(ALPHA * RE * k.z) * (k.Z + zeta(k)) * (1 - v) / v;
    double l = std::log(1 + 1 / xi), l1 = std::log(1 + xi);
    double Be = ((2 + r2) * (1 + be) + xi * (3 + r2)) * l + (1 - r2 - be) / (1 + xi) - (3 + r2);
    double C2e = ((1 - r2) * (1 + be) + xi * (3 - r2)) * l + 2 * (1 - be - r2) / (1 + xi) - (3 - r2);
    double De = ((2 + r2) * (1 + be) + xi * (3 + r2)) * PROPOSAL::dilog(1 / (1 + xi)) - (2 + r2) * xi * l - (xi + r2 + be) / (1 + xi);
    double de = De / Be;
    vf_assume(de > 0); // the other arm is a guard against rounding
    double kin_e = 2 * ME * BZ * (1 + xi) / (k.E * v * (1 - r2));
    auto Le = [&](double s) { // s = 1/2 : L_e1,  s = 1/3 : L_e2
        double Xe = std::exp(-de), f = s == 0.5 ? 1 : std::exp(-1. / 6), g = s == 0.5 ? 1 : std::exp(-1. / 3);
        return std::log(BZ * f * std::sqrt(1 + xi) / (Xe + kin_e * std::exp(s))) - de - 0.5 * std::log(Xe + sq(ME / k.m * Dn) * g * (1 + xi));
    };
    double e = pre * ((Be - C2e) * Le(0.5) + C2e * Le(1. / 3));
    double Bm = ((1 + r2) * (1 + 1.5 * be) - (1 + 2 * be) * (1 - r2) / xi) * l1 + xi * (1 - r2 - be) / (1 + xi) + (1 + 2 * be) * (1 - r2);
    double C2m = ((1 - be) * (1 - r2) - xi * (1 + r2)) * l1 / xi - 2 * (1 - be - r2) / (1 + xi) + 1 - be - (1 + be) * r2;
    double Dm = ((1 + r2) * (1 + 1.5 * be) - (1 + 2 * be) * (1 - r2) / xi) * PROPOSAL::dilog(xi / (1 + xi)) + (1 + 1.5 * be) * (1 - r2) / xi * l1
        + (1 - r2 - be / 2 * (1 + r2) + (1 - r2) / (2 * xi) * be) * xi / (1 + xi);
    double dm = Dm / Bm;
    auto Lm = [&](double s) {
        double c = k.m / ME * BZ / Dn, q = kin_e * std::exp(s); // log(c / (1 + q e^dm)), written without overflow
        return dm > 0 ? std::log(c * std::exp(-dm) / (std::exp(-dm) + q)) : std::log(c / (1 + q * std::exp(dm)));
    };
    double m = pre * sq(ME / k.m * k.z) * ((Bm - C2m) * Lm(0.5) + C2m * Lm(1. / 3));
    return (std::max(0., e) + std::max(0., m)) * lpm;
}
VF_CONTRACT(epair_sandrock_soedingrekso_rhode) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    EpairSandrockSoedingreksoRhode e(false);
    double want = ssr(k, 1);
    vf_assert_eq(e.FunctionToIntegral(p, c, k.E, k.v, 1 - k.rho), want, "Sandrock-Soedingrekso-Rhode pair production d2sigma/dv drho");
}
// electrons and positrons: Kelner/Kokoulin/Petrukhin, Phys. Atom. Nucl. 63 (2000) 1603, eqs. 18, 21, 22
static double elpos(const Kin& k, double lpm) {
    double r2 = k.rho * k.rho, v = k.v, be = v * v / (2 * (1 - v)), xi = v * v / 4 * (1 - r2) / (1 - v);
    double rm = 1 - 2 * ME / (v * k.E), xim = v * v * (1 - rm * rm) / (4 * (1 - v)), BZ = k.B / std::cbrt(k.Z);
    double phi = ((2 + r2) * (1 + be) + xi * (3 + r2)) * std::log(1 + 1 / xi)
        + ((1 + r2) * (1 + 1.5 * be) - (1 + 2 * be) * (1 - r2) / xi) * std::log(1 + xi) - 1 - 3 * r2 + be * (1 - 2 * r2);
    double Y = 12 * std::sqrt(ME / k.E), se = std::sqrt(std::exp(1.));
    auto U = [&](double x, double q2) { return BZ / (1 + 2 * se * ME * BZ * (1 + x) * (1 + Y) / (k.E * v * (1 - q2))); };
    double X = 1 + U(xi, r2) - U(xim, rm * rm);
    if (!(X > 0)) return 0;
    double r = 4. / (3 * PI) * sq(ALPHA * RE * k.z * k.Z) * (1 - v) / v * phi * std::log(X);
    return r < 0 ? 0 : r * lpm;
}
VF_CONTRACT(epair_electron_positron) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    EpairForElectronPositron e(false);
    vf_assert_eq(e.FunctionToIntegral(p, c, k.E, k.v, 1 - k.rho), elpos(k, 1), "pair production by electrons d2sigma/dv drho");
}
// LPM suppression is applied with the asymmetry and recoil variables of the vertex
static EpairLPM& any_lpm(const ParticleDef& p) {
    static char buf[sizeof(EpairLPM)];
    EpairLPM& l = *(EpairLPM*)buf;
    l.hash = 1; l.mass_ = p.mass; l.charge_ = p.charge;
    l.mol_density_ = vf_real("mol", 1e20, 1e24); l.eLpm_ = vf_real("eLPM", 1e2, 1e16);
    vf_assume(l.mol_density_ > 0); vf_assume(l.eLpm_ > 0);
    return l;
}
template <class E, class F> static void lpm_applied(E& e, F f, const char* what) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    EpairLPM& l = any_lpm(p);
    e.lpm_ = std::shared_ptr<EpairLPM>(&l, [](EpairLPM*) {});
    e.density_correction_ = vf_real("density_correction", 0.1, 3);
    vf_assume(e.density_correction_ > 0);
    double r2 = k.rho * k.rho, ms = what[0] == 'e' ? 2 * ME : p.mass;
    double xi = sq(ms * k.v / (2 * ME)) * (1 - r2) / (1 - k.v);
    if (what[0] == 'e') xi = k.v * k.v / 4 * (1 - r2) / (1 - k.v);
    double S = l.suppression_factor(k.E, k.v, r2, k.v * k.v / (2 * (1 - k.v)), xi, e.density_correction_);
    double want = f(k, S);
    vf_assert_eq_tol(e.FunctionToIntegral(p, c, k.E, k.v, 1 - k.rho), want, what, 0.15);
}
VF_CONTRACT(epair_kkp_lpm) { EpairKelnerKokoulinPetrukhin e(false); lpm_applied(e, kkp, "Kelner-Kokoulin-Petrukhin with LPM"); }
VF_CONTRACT(epair_ssr_lpm) { EpairSandrockSoedingreksoRhode e(false); lpm_applied(e, ssr, "Sandrock-Soedingrekso-Rhode with LPM"); }
VF_CONTRACT(epair_elpos_lpm) { EpairForElectronPositron e(false); lpm_applied(e, elpos, "electron pair production with LPM"); }

// integration over the asymmetry
struct AnyEpair : EpairProductionRhoIntegral {
    AnyEpair() : EpairProductionRhoIntegral(false) {}
    std::unique_ptr<Parametrization<Component>> clone() const { return nullptr; }
    double FunctionToIntegral(const ParticleDef&, const Component&, double E, double v, double r) const { return vf_uf3("f_epair", E, v, r); }
};
VF_CONTRACT(epair_asymmetry_integral) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    AnyEpair e;
    double a = 1 - 4 * ME / (k.E * k.v), b = 1 - 6 * k.m * k.m / (k.E * k.E * (1 - k.v));
    double rmax = a > 0 && b > 0 ? std::sqrt(a) * b : 0;
    // r = 1 - rho: asymmetries 0 .. rho_max
    double want = NA / k.A * vf_integral(1 - rmax, 1, [&](double r) { return vf_uf3("f_epair", k.E, k.v, r); });
    vf_assert_eq_tol(e.DifferentialCrossSection(p, c, k.E, k.v), want, "dsigma/dv is the integral over asymmetries up to the kinematic limit", 1e-3);
}
