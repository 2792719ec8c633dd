// VF-SOURCES: crosssection/parametrization/Bremsstrahlung.cxx medium/Components.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/math/Interpolant.h"
using namespace PROPOSAL::crosssection;

struct Kin { double E, v, m, Z, A; };
static Kin kin(const ParticleDef& p, const Component& c) {
    Kin k{vf_real("E", 1e2, 1e9), vf_real("v", 1e-6, 1), p.mass, c.GetNucCharge(), c.GetAtomicNum()};
    vf_assume(k.E > k.m);
    vf_assume(0 < k.v);
    vf_assume(k.v < 1);
    return k;
}
// minimal momentum transfer to the nucleus
static double qmin(const Kin& k) { return k.m * k.m * k.v / (2 * k.E * (1 - k.v)); }
static double shape(double v) { return 4. / 3 * (1 - v) + v * v; }

// Petrukhin/Shestakov, Canad. J. Phys. 46 (1968) 377
VF_CONTRACT(brems_petrukhin_shestakov) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    BremsPetrukhinShestakov b(false);
    double got = b.CalculateParametrization(p, c, k.E, k.v);
    double R = 189 * std::cbrt(1 / k.Z);
    double phi = R * k.m / (ME + R * std::sqrt(std::exp(1.)) * qmin(k));
    if (k.Z > 10) phi *= 2 / (3 * std::cbrt(k.Z));
    vf_cover("reached");
    vf_assert_eq(got, shape(k.v) * std::log(phi), "Petrukhin-Shestakov bremsstrahlung");
}
// Kelner/Kokoulin/Petrukhin, MEPhI 024-95
VF_CONTRACT(brems_kelner_kokoulin_petrukhin) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    BremsKelnerKokoulinPetrukhin b(false);
    double got = b.CalculateParametrization(p, c, k.E, k.v);
    double se = std::sqrt(std::exp(1.)), d = qmin(k), Z3 = std::pow(k.Z, -1. / 3), Dn = 1.54 * std::pow(k.A, 0.27);
    double elastic = std::log(k.m / d) - 0.5;
    double at = std::log(1 + ME / (d * se * c.GetLogConstant() * Z3));
    double nu = std::log(Dn / (1 + d * (Dn * se - 2) / k.m));
    double pm = std::sqrt(k.E * k.E - k.m * k.m);
    double vmax = ME * (k.E - k.m) / (k.E * (k.E - pm + ME));
    double el = 0;
    if (k.v < vmax)
        el = std::log(k.m / d / (d * k.m / (ME * ME) + se)) - std::log(1 + ME / (d * se * c.GetBPrime() * Z3 * Z3));
    double nuin = k.Z != 1 ? nu : 0;
    vf_assert_eq(got, shape(k.v) * (elastic - at - nu + (nuin + el) / k.Z), "Kelner-Kokoulin-Petrukhin bremsstrahlung");
}
// radiation logarithms of Tsai, table B.2, and the Coulomb correction f(Z)
static void tsai(double Z, double& Lr, double& Lp) {
    int z = (int)(Z + 0.5);
    if (z == 1) { Lr = 5.31; Lp = 6.144; }
    else if (z == 2) { Lr = 4.79; Lp = 5.621; }
    else if (z == 3) { Lr = 4.74; Lp = 5.805; }
    else if (z == 4) { Lr = 4.71; Lp = 5.924; }
    else { Lr = std::log(184.15) - std::log(Z) / 3; Lp = std::log(1194.) - 2 * std::log(Z) / 3; }
}
static double coulomb(double Z) {
    double a = sq(ALPHA * Z);
    return a * (1 / (1 + a) + 0.20206 - 0.0369 * a + 0.0083 * a * a - 0.002 * a * a * a);
}
// Tsai, Rev. Mod. Phys. 46 (1974) 815, eq. 3.83
VF_CONTRACT(brems_complete_screening) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    BremsCompleteScreening b(false);
    double got = b.CalculateParametrization(p, c, k.E, k.v), Lr, Lp;
    tsai(k.Z, Lr, Lp);
    double f = coulomb(k.Z);
    vf_assert_eq(got, shape(k.v) * (Lr - f + Lp / k.Z) + (1 - k.v) / 9 * (1 + 1 / k.Z), "complete screening bremsstrahlung");
}
// Andreev/Bezrukov/Bugaev, Phys. Atom. Nucl. 57 (1994) 2066
VF_CONTRACT(brems_andreev_bezrukov_bugaev) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    BremsAndreevBezrukovBugaev b(false);
    double got = b.CalculateParametrization(p, c, k.E, k.v);
    double se = std::sqrt(std::exp(1.)), Z3 = std::pow(k.Z, -1. / 3), d = qmin(k), m = k.m;
    double a1 = 184.15 * Z3 / (se * ME), a2 = 1194 * Z3 * Z3 / (se * ME);
    double x1 = a1 * d, x2 = a2 * d, qc = 1.9 * MMU * Z3, zt = std::sqrt(1 + 4 * m * m / (qc * qc));
    double D1 = 0, D2 = 0;
    if (k.Z != 1) {
        double l = std::log((zt + 1) / (zt - 1));
        D1 = std::log(m / qc) + zt / 2 * l;
        D2 = std::log(m / qc) + zt / 4 * (3 - zt * zt) * l + 2 * m * m / (qc * qc);
    }
    auto l1 = [&](double a, double x) { return std::log(sq(m * a) / (1 + x * x)); };
    auto p1 = [&](double a, double x) { return (1 + l1(a, x)) / 2 - x * std::atan(1 / x); };
    auto p2 = [&](double a, double x) {
        return (2. / 3 + l1(a, x)) / 2 + 2 * x * x * (1 - x * std::atan(1 / x) + 0.75 * std::log(x * x / (1 + x * x)));
    };
    double psi1 = p1(a1, x1) + p1(a2, x2) / k.Z - D1, psi2 = p2(a1, x1) + p2(a2, x2) / k.Z - D2;
    double r = (2 - 2 * k.v + k.v * k.v) * psi1 - 2. / 3 * (1 - k.v) * psi2;
    vf_assert_eq_tol(got, r < 0 ? 0 : r, "Andreev-Bezrukov-Bugaev bremsstrahlung", 2e-2);
}
// Sandrock/Soedingrekso/Rhode (2018)
VF_CONTRACT(brems_sandrock_soedingrekso_rhode) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    BremsSandrockSoedingreksoRhode b(false);
    double got = b.CalculateParametrization(p, c, k.E, k.v);
    double v = k.v, m = k.m, Z = k.Z, se = std::sqrt(std::exp(1.)), Z13 = std::pow(Z, -1. / 3), d = qmin(k);
    double Dn = 1.54 * std::pow(k.A, 0.27), qc = MMU * std::exp(1.) / Dn, t = m / qc, rho = std::sqrt(1 + 4 * t * t);
    double lr = std::log((rho + 1) / (rho - 1));
    double D1 = std::log(t) + rho / 2 * lr, D2 = std::log(t) + (3 * rho - cube(rho)) / 4 * lr + 2 * t * t;
    double w = Z == 1 ? 1 : 1 - 1 / Z, B = c.GetLogConstant() * Z13;
    double phi1 = std::log(B * m / (ME + B * se * d)) - w * D1;
    double phi2 = std::log(B * m / (ME + B * std::cbrt(std::exp(1.)) * d)) - 1. / 6 - w * D2;
    double pm = std::sqrt(k.E * k.E - m * m), vmax = ME * (k.E - m) / (k.E * (k.E - pm + ME)), sat = 0;
    if (v < vmax)
        sat = shape(v) * (std::log(m / d / (m * d / (ME * ME) + se)) - std::log(1 + ME / (d * c.GetBPrime() * Z13 * Z13 * se)));
    double sr;
    if (v < 0.02) sr = -0.00349 + 148.84 * v - 987.531 * v * v;
    else if (v < 0.1) sr = 0.1642 + 132.573 * v - 585.361 * v * v + 1407.77 * cube(v);
    else if (v < 0.9) sr = -2.8922 - 19.0156 * v + 57.698 * v * v - 63.418 * v * std::log(v) + 14.1166 * std::log(1 - v) + 1.84206 * sq(std::log(1 - v));
    else sr = 2134.19 + 581.823 * v - 2708.85 * v * v + 4767.05 * v * std::log(v) + 1.52918 * std::log(1 - v) + 0.361933 * sq(std::log(1 - v));
    double r = (2 - 2 * v + v * v) * phi1 - 2. / 3 * (1 - v) * phi2 + sat / Z + ALPHA / 4 * phi1 * sr;
    vf_assert_eq(got, r < 0 ? 0 : r, "Sandrock-Soedingrekso-Rhode bremsstrahlung");
}
// every parametrization: dsigma/dv * N_A/A with the common prefactor
struct AnyBrems : Bremsstrahlung {
    double f;
    std::unique_ptr<Parametrization<Component>> clone() const { return nullptr; }
    double CalculateParametrization(const ParticleDef&, const Component&, double E, double v) const { return vf_uf2("f_brems", E, v); }
};
VF_CONTRACT(brems_prefactor) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    AnyBrems b;
    double got = b.DifferentialCrossSection(p, c, k.E, k.v);
    double want = NA / k.A * ALPHA / k.v * sq(2 * p.charge * p.charge * k.Z * RE * ME / k.m) * vf_uf2("f_brems", k.E, k.v);
    vf_assert_eq(got, want, "bremsstrahlung prefactor 4 alpha Z^2 z^4 (r_e m_e/m)^2 N_A/A / v");
    vf_assert_eq(b.FunctionToDEdxIntegral(p, c, k.E, k.v), k.v * want, "energy-loss integrand is v dsigma/dv");
    vf_assert_eq(b.FunctionToDE2dxIntegral(p, c, k.E, k.v), k.v * k.v * want, "second-moment integrand is v^2 dsigma/dv");
}
// with the LPM effect switched on every cross section is scaled by the suppression factor
static double spec_suppression(const BremsLPM& l, double E, double v, double Z, double A, double B, double rho) {
    double Dn = 1.54 * std::pow(A, 0.27), m = l.mass_;
    double s1 = std::sqrt(2.) * sq(ME * std::cbrt(Z) / (m * B)) * (1 + sq(m / MMU * Dn));
    double sp = std::sqrt(l.eLpm_ * v / (rho * E * (1 - v))) / 8;
    double h = std::log(sp) / std::log(s1);
    double xi = sp < s1 ? 2 : (sp < 1 ? 1 + h - 0.08 * (1 - h) * (1 - sq(1 - h)) / std::log(s1) : 1);
    double g = RE * ME / (ALPHA * m * v);
    double Ga = 1 + 4 * PI * l.sum_charge_ * RE * g * g * l.mol_density_ * rho;
    double s = sp * Ga / std::sqrt(xi);
    double phi = s < 1.54954 ? 1 - std::exp(-6 * s * (1 + (3 - PI) * s) + cube(s) / (0.623 + 0.796 * s + 0.658 * s * s)) : 1 - 0.012 / sq(s * s);
    double G;
    if (s < 0.710390) G = 3 * (1 - std::exp(-4 * s - 8 * s * s / (1 + 3.936 * s + 4.97 * s * s - 0.05 * cube(s) + 7.5 * sq(s * s)))) - 2 * phi;
    else if (s < 0.904912) G = 36 * s * s / (36 * s * s + 1);
    else G = 1 - 0.022 / sq(s * s);
    return xi / 3 * (v * v * G / (Ga * Ga) + 2 * (1 + sq(1 - v)) * phi / Ga) / shape(v);
}
static BremsLPM& any_lpm(const ParticleDef& p, const Component& c) {
    static char buf[sizeof(BremsLPM)];
    BremsLPM& l = *(BremsLPM*)buf;
    l.hash = 1; l.mass_ = p.mass;
    l.mol_density_ = vf_real("mol", 1e20, 1e24); l.mass_density_ = vf_real("rho_m", 0.1, 10);
    l.sum_charge_ = vf_real("sumZ", 1, 100); l.eLpm_ = vf_real("eLPM", 1e2, 1e16);
    vf_assume(l.mol_density_ > 0); vf_assume(l.mass_density_ > 0); vf_assume(l.sum_charge_ > 0); vf_assume(l.eLpm_ > 0);
    return l;
}
VF_CONTRACT(brems_lpm_suppression) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    BremsLPM& l = any_lpm(p, c);
    double rho = vf_real("density_correction", 0.1, 3);
    vf_assume(rho > 0);
    double got = l.suppression_factor(k.E, k.v, c, rho);
    vf_assert_eq(got, spec_suppression(l, k.E, k.v, k.Z, k.A, c.GetLogConstant(), rho), "LPM/TM suppression factor (Stanev et al.)");
}
VF_CONTRACT(brems_lpm_applied) {
    auto p = any_particle(); auto c = any_component(); auto k = kin(p, c);
    vf_assume(k.v < 0.5);
    BremsLPM& l = any_lpm(p, c);
    AnyBrems b;
    double plain = b.DifferentialCrossSection(p, c, k.E, k.v);
    b.lpm_ = std::shared_ptr<BremsLPM>(&l, [](BremsLPM*) {});
    b.density_correction_ = vf_real("density_correction", 0.1, 3);
    vf_assume(b.density_correction_ > 0);
    vf_assert_eq(b.DifferentialCrossSection(p, c, k.E, k.v), plain * l.suppression_factor(k.E, k.v, c, b.density_correction_), "LPM effect multiplies the cross section");
}
