// VF-SOURCES: crosssection/parametrization/Compton.cxx crosssection/parametrization/PhotoPairProduction.cxx crosssection/parametrization/PhotoMuPairProduction.cxx crosssection/parametrization/MupairProduction.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::dilog\( => vfr_dilog
// VF-REPLACE: ^PROPOSAL::crosssection::PhotoPairLPM::suppression_factor\( => vfr_suppression [in=vfc_photopair_tsai_.*|vfc_photopair_koch_motz.*|vfc_photopair_lpm_applied]
// VF-REPLACE: ^PROPOSAL::Interpolant::InterpolateArray\(double, double\) => vfr_table
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/ParamTables.h"
#include "PROPOSAL/math/Interpolant.h"
#include "PROPOSAL/math/MathMethods.h"
#include <algorithm>
using namespace PROPOSAL::crosssection;

// Li2 as the code's own dilog (decided by property P08): its value is not needed here
static double Li2(double x) { return vf_symbolic() ? vf_uf1("Li2", x) : dilog(x); }
extern "C" double vfr_dilog(double x) { return vf_uf1("Li2", x); }
extern "C" double vfr_suppression(const PhotoPairLPM*, double E, double x, const Component&, double dc) {
    double s = vf_uf3("photopair_lpm", E, x, dc);
    vf_assume(s > 0);
    return s;
}
extern "C" double vfr_table(Interpolant*, double a, double b) { return vf_uf2("table", a, b); }

// Klein-Nishina in the relative energy loss v of the photon
VF_CONTRACT(compton_klein_nishina) {
    auto c = any_component();
    double E = vf_real("E", 1e-2, 1e5), v = vf_real("v", 0, 1);
    vf_assume(E > 0); vf_assume(v >= 0); vf_assume(v < 1);
    auto p = particle_of_mass(0, 0);
    ComptonKleinNishina k;
    double e = 1 - v, ct = 1 + ME / E - ME / (E * e);   // scattered fraction, angle of the photon
    double want = NA / c.GetAtomicNum() * c.GetNucCharge() * PI * sq(RE) * ME / E * (1 / e + e - (1 - ct * ct));
    vf_cover("reached");
    vf_assert_eq(k.DifferentialCrossSection(p, c, E, v), want, "Klein-Nishina cross section");
}
// Kelner/Kokoulin/Petrukhin, Phys. At. Nucl. 63 (2000) 1603
struct Mu { double E, v, r, m, z, Z, A; };
static double mupair(const Mu& k) {
    double se = std::sqrt(std::exp(1.)), r2 = k.r * k.r, v = k.v, be = v * v / (2 * (1 - v)), B = 183, Z3 = std::pow(k.Z, -1. / 3);
    double xi = sq(k.m * v / (2 * MMU)) * (1 - r2) / (1 - v), rmax = 1 - 2 * MMU / (v * k.E), Y = 12 * std::sqrt(MMU / k.E);
    double phi = ((2 + r2) * (1 + be) + xi * (3 + r2)) * std::log(1 + 1 / xi)
        + ((1 + r2) * (1 + 1.5 * be) - (1 + 2 * be) * (1 - r2) / xi) * std::log(1 + xi)
        - 1 - 3 * r2 + be * (1 - 2 * r2);
    auto U = [&](double x, double q2) {
        return 0.65 * std::pow(k.A, -0.27) * B * Z3 * MMU / ME / (1 + 2 * se * sq(MMU) * B * Z3 * (1 + x) * (1 + Y) / (ME * k.E * v * (1 - q2)));
    };
    double X = 1 + U(xi, r2) - U(v * v * (1 - rmax * rmax) / (4 * (1 - v)), rmax * rmax);
    double f = sq(ALPHA * RE * ME / MMU * k.z * k.Z) * 4 / (3 * PI) * (1 - v) / v * phi;
    if (!(X > 0)) return 0;
    double s = f * std::log(X);
    return s < 0 ? 0 : s;
}
static Mu mukin(const ParticleDef& p, const Component& c) {
    Mu k{vf_real("E", 5e2, 1e9), vf_real("v", 1e-3, 1), vf_real("rho", 0, 1), p.mass, p.charge, c.GetNucCharge(), c.GetAtomicNum()};
    vf_assume(k.E > k.m); vf_assume(0 < k.v); vf_assume(k.v < 1); vf_assume(k.r >= 0); vf_assume(k.v * k.E > 2 * MMU);
    vf_assume(k.r < 1);
    return k;
}
VF_CONTRACT(mupair_kelner_kokoulin_petrukhin) {
    auto p = any_particle(); auto c = any_component(); auto k = mukin(p, c);
    MupairKelnerKokoulinPetrukhin m;
    vf_assert_eq_tol(m.FunctionToIntegral(p, c, k.E, k.v, k.r), mupair(k), "muon pair production d2sigma/dv drho", 1e-3);
}
struct AnyMupair : MupairProductionRhoIntegral {
    std::unique_ptr<Parametrization<Component>> clone() const { return nullptr; }
    double FunctionToIntegral(const ParticleDef&, const Component&, double E, double v, double r) const { return vf_uf3("f_mupair", E, v, r); }
};
VF_CONTRACT(mupair_integrated) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 5e2, 1e9), v = vf_real("v", 1e-3, 1);
    vf_assume(E > p.mass); vf_assume(0 < v); vf_assume(v < 1);
    AnyMupair m;
    double got = m.DifferentialCrossSection(p, c, E, v);
    if (v * E < 2 * MMU) { vf_assert_eq(got, 0, "no muon pair below threshold"); return; }
    vf_assert_eq(got, NA / c.GetAtomicNum() * vf_integral(0, 1 - 2 * MMU / (v * E), [&](double r) { return vf_uf3("f_mupair", E, v, r); }), "muon pair production dsigma/dv");
}
// Burkhardt/Kelner/Kokoulin, CERN-SL-2002-016, with atomic form factors of Kelner/Kokoulin/Petrukhin
VF_CONTRACT(photomupair_burkhardt_kelner_kokoulin) {
    auto p = particle_of_mass(0, 0); auto c = any_component();
    double E = vf_real("E", 5e2, 1e9), x = vf_real("x", 1e-3, 1), Z = c.GetNucCharge(), A = c.GetAtomicNum();
    vf_assume(E > 0); vf_assume(x > 0); vf_assume(x < 1);
    PhotoMuPairBurkhardtKelnerKokoulin b;
    double se = std::sqrt(std::exp(1.)), d = sq(MMU) / (2 * E * x * (1 - x)), Z3 = std::pow(Z, -1. / 3), B = c.GetLogConstant(), Dn = 1.54 * std::pow(A, 0.27);
    double el = std::log(MMU / ME * B * Z3 / (1 + B * Z3 * se * d / ME)), nu = std::log(Dn / (1 + d * (Dn * se - 2) / MMU));
    double phi = el - nu;
    if (Z > 1) phi = el - (1 - 1 / Z) * nu;
    phi += (std::log(MMU / d / (d * MMU / sq(ME) + se)) - std::log(1 + ME / (d * se * c.GetBPrime() * sq(Z3)))) / Z;
    double want = NA / A * 4 * ALPHA * sq(Z * RE * ME / MMU) * (1 - 4. / 3 * x * (1 - x)) * phi;
    vf_assert_eq_tol(b.DifferentialCrossSection(p, c, E, x), std::max(want, 0.), "muon pair production by photons", 1e-3);
}
// Tsai, Rev. Mod. Phys. 46 (1974) 815, eq. 3.9
struct FF { double p1, p2, s1, s2; };
static FF hydrogen_like(double Z, double eta, double d) {
    double C = d / (2 * ALPHA * ME * eta), C2 = C * C, a = C * std::atan(1 / C), L = 4 * std::log(1 / (2 * eta * ALPHA)), l = std::log(1 + 1 / C2), lz = std::log(Z), q = 2 * std::log(1 + C2), o = 1 + 1 / C2;
    return { 4. / 3 * lz + L + 13. / 3 - q - 6.5 * a + 1 / (6 * o),
             4. / 3 * lz + L + 11. / 3 - q + 25 * C2 * (1 - a) - 14 * C2 * l,
             8. / 3 * lz + L + 23. / 3 - q - 17.5 * a + 8 * C2 * l - 1 / (6 * o),
             8. / 3 * lz + L + 21. / 3 - q - 105 * C2 * (1 - a) + 50 * C2 * l - 24 * C2 * (-std::log(C2) * l + Li2(o) - Li2(1)) };
}
static FF lithium_like(double Z, double a0, double ap0, double d) {
    double a = a0 * std::pow(Z, -1. / 3) / ME, ap = ap0 * std::pow(Z, -2. / 3) / ME;
    auto f1 = [&](double s, double zf) { double b = d * s; return 2 * (1 + std::log(sq(s * ME) * zf)) - 2 * std::log(1 + b * b) - 4 * b * std::atan(1 / b); };
    auto f2 = [&](double s, double zf) {
        double b = d * s;
        return 2 * (2. / 3 + std::log(sq(s * ME) * zf)) - 2 * std::log(1 + b * b) + 8 * b * b * (1 - b * std::atan(1 / b) - 0.75 * std::log(1 + 1 / (b * b)));
    };
    double z1 = std::pow(Z, 2. / 3), z2 = std::pow(Z, 4. / 3);
    return { f1(a, z1), f2(a, z1), f1(ap, z2), f2(ap, z2) };
}
static FF heavy(double Z, double d) {
    double g = 200 * d / (ME * std::pow(Z, 1. / 3)), e = 200 * d / (ME * std::pow(Z, 2. / 3));
    double p1 = 20.863 - 2 * std::log(1 + sq(0.55846 * g)) - 4 * (1 - 0.6 * std::exp(-0.9 * g) - 0.4 * std::exp(-1.5 * g));
    double s1 = 28.340 - 2 * std::log(1 + sq(3.621 * e)) - 4 * (1 - 0.7 * std::exp(-8 * e) - 0.3 * std::exp(-29.2 * e));
    return { p1, p1 - 2. / (3 * (1 + 6.5 * g + 6 * g * g)), s1, s1 - 2. / (3 * (1 + 40 * e + 400 * e * e)) };
}
static double tsai(double k, double x, double Z, double A, const FF& f, double lpm) {
    double z = sq(Z / 137), c = 1.202 * z - 1.0369 * z * z + 1.008 * cube(z) / (1 + z), lz = std::log(Z);
    double s = (1 - 4. / 3 * x * (1 - x)) * (Z * Z * (f.p1 - 4. / 3 * lz - 4 * c) + Z * (f.s1 - 8. / 3 * lz))
        - 2. / 3 * x * (1 - x) * (Z * Z * (f.p1 - f.p2) + Z * (f.s1 - f.s2));
    double mom = std::sqrt(sq(x * k) - sq(ME));
    return NA / A * ALPHA * sq(RE) * s * x * k / mom * lpm;
}
struct Ph { double E, x, Z, A, d; };
static Ph phkin(const Component& c, double xlo) {
    Ph k{vf_real("E", 2, 1e9), vf_real("x", xlo, 1), c.GetNucCharge(), c.GetAtomicNum(), 0};
    vf_assume(k.E > 2 * ME); vf_assume(k.x * k.E > ME); vf_assume(k.x > 0); vf_assume(k.x < 1);
    k.d = sq(ME) / (2 * k.E * k.x * (1 - k.x));
    return k;
}
VF_CONTRACT(photopair_tsai_hydrogen_helium) {
    auto p = particle_of_mass(0, 0); auto c = any_component();
    int z = vf_choose("element", 2);
    c.nucCharge_ = 1 + z;
    auto k = phkin(c, 1e-3);
    PhotoPairTsai t(false);
    FF f = hydrogen_like(1 + z, z ? 1.6875 : 1, k.d);
    vf_assert_eq_tol(t.DifferentialCrossSection(p, c, k.E, k.x), std::max(tsai(k.E, k.x, 1 + z, k.A, f, 1), 0.), "Tsai pair production on hydrogen and helium", 2e-2);
}
VF_CONTRACT(photopair_tsai_lithium_beryllium) {
    auto p = particle_of_mass(0, 0); auto c = any_component();
    int z = vf_choose("element", 2);
    c.nucCharge_ = 3 + z;
    auto k = phkin(c, 1e-3);
    PhotoPairTsai t(false);
    FF f = lithium_like(3 + z, z ? 106 : 100, z ? 571.4 : 418.6, k.d);
    vf_assert_eq_tol(t.DifferentialCrossSection(p, c, k.E, k.x), std::max(tsai(k.E, k.x, 3 + z, k.A, f, 1), 0.), "Tsai pair production on lithium and beryllium", 2e-2);
}
VF_CONTRACT(photopair_tsai_heavy) {
    auto p = particle_of_mass(0, 0); auto c = any_component();
    auto k = phkin(c, 1e-3);
    vf_assume(k.Z >= 5);
    PhotoPairTsai t(false);
    vf_assert_eq_tol(t.DifferentialCrossSection(p, c, k.E, k.x), std::max(tsai(k.E, k.x, k.Z, k.A, heavy(k.Z, k.d), 1), 0.), "Tsai pair production on heavy elements", 1e-3);
}
// Koch/Motz, Rev. Mod. Phys. 31 (1959) 920, as in EGS5
static double koch_motz(double E, double v, double Z, double A) {
    double d = sq(ME) / (2 * E * v * (1 - v)), x = 272 * std::pow(Z, -1. / 3) * d / ME, p1, p2, Lr, Lp;
    if (x <= 1) { p1 = 20.867 - 3.242 * x + 0.625 * x * x; p2 = 20.029 - 1.930 * x - 0.086 * x * x; }
    else p1 = p2 = 21.12 - 4.184 * std::log(x + 0.952);
    double a = sq(ALPHA * Z), f = a * (1 / (1 + a) + 0.20206 - 0.0369 * a + 0.0083 * a * a - 0.002 * a * a * a);
    int z = (int)(Z + 0.5);
    if (z == 1) { Lr = 5.31; Lp = 6.144; }
    else if (z == 2) { Lr = 4.79; Lp = 5.621; }
    else if (z == 3) { Lr = 4.74; Lp = 5.805; }
    else if (z == 4) { Lr = 4.71; Lp = 5.924; }
    else { Lr = std::log(184.15 * std::pow(Z, -1. / 3)); Lp = std::log(1194 * std::pow(Z, -2. / 3)); }
    double xi = Lp / (Lr - f);
    if (E < 50) f = 0;
    double cc = 4. / 3 * std::log(Z) + 4 * f;
    return NA / A * Z * (Z + xi) * sq(RE) * ALPHA * ((2 * v * v - 2 * v + 1) * (p1 - cc) + 2. / 3 * v * (1 - v) * (p2 - cc));
}
static PhotoPairKochMotz& any_koch_motz() {
    static char buf[sizeof(PhotoPairKochMotz)];
    if (!vf_symbolic()) { static PhotoPairKochMotz real(false); return real; }
    PhotoPairKochMotz& k = *(PhotoPairKochMotz*)buf;
    new (&k.lpm_) std::shared_ptr<PhotoPairLPM>();
    static char tab[sizeof(Interpolant)];
    new (&k.interpolant_) std::shared_ptr<Interpolant>((Interpolant*)tab, [](Interpolant*) {});
    k.density_correction_ = 1;
    return k;
}
VF_CONTRACT(photopair_koch_motz_high_energy) {
    auto p = particle_of_mass(0, 0); auto c = any_component();
    auto k = phkin(c, 1e-3);
    auto& t = any_koch_motz();
    vf_assert_eq_tol(t.DifferentialCrossSectionWithoutA(p, c, k.E, k.x), koch_motz(k.E, k.x, k.Z, k.A), "Koch-Motz pair production", 1e-3);
}
// below 50 MeV the total cross section is normalised to the tabulated one
VF_CONTRACT(photopair_koch_motz_normalised) {
    auto p = particle_of_mass(0, 0); auto c = any_component();
    auto k = phkin(c, 1e-3);
    vf_assume(k.Z >= 5);
    auto& t = any_koch_motz();
    double got = t.PhotoPairKochMotz::DifferentialCrossSection(p, c, k.E, k.x), plain = t.DifferentialCrossSectionWithoutA(p, c, k.E, k.x);
    if (k.E > 50) { vf_assert_eq(got, plain, "Koch-Motz is not corrected above 50 MeV"); return; }
    double lo = ME / k.E, total = vf_integral(lo, 1 - lo, [&](double v) { return t.DifferentialCrossSectionWithoutA(p, c, k.E, v) * k.A / NA / 1e-24; });
    double table = vf_symbolic() ? vf_uf2("table", k.Z, k.E) : t.interpolant_->InterpolateArray(k.Z, k.E);
    vf_assert_eq_tol(got, plain * table / total, "Koch-Motz is normalised to the tabulated cross section below 50 MeV", 2e-2);
}
VF_CONTRACT(photopair_lpm_applied) {
    auto p = particle_of_mass(0, 0); auto c = any_component();
    c.nucCharge_ = 8;
    auto k = phkin(c, 1e-3);
    static char buf[sizeof(PhotoPairLPM)];
    PhotoPairLPM& l = *(PhotoPairLPM*)buf;
    l.hash = 1; l.mol_density_ = vf_real("mol", 1e20, 1e24); l.mass_density_ = vf_real("rho_m", 0.1, 10); l.sum_charge_ = vf_real("sumZ", 1, 100); l.eLpm_ = vf_real("eLPM", 1e2, 1e16);
    vf_assume(l.mol_density_ > 0); vf_assume(l.sum_charge_ > 0); vf_assume(l.eLpm_ > 0);
    double dc = vf_real("density_correction", 0.1, 3);
    vf_assume(dc > 0);
    double s = l.suppression_factor(k.E, k.x, c, dc);
    vf_assume(s > 0);
    auto share = std::shared_ptr<PhotoPairLPM>(&l, [](PhotoPairLPM*) {});
    if (vf_choose("parametrization", 2) == 0) {
        PhotoPairTsai t(false);
        t.lpm_ = share; t.density_correction_ = dc;
        vf_assert_eq_tol(t.DifferentialCrossSection(p, c, k.E, k.x), std::max(tsai(k.E, k.x, 8, k.A, heavy(8, k.d), s), 0.), "LPM effect multiplies the Tsai cross section", 1e-3);
    } else {
        auto& t = any_koch_motz();
        double plain = t.DifferentialCrossSectionWithoutA(p, c, k.E, k.x), old = t.density_correction_;
        t.lpm_ = share; t.density_correction_ = dc;
        double got = t.DifferentialCrossSectionWithoutA(p, c, k.E, k.x);
        t.lpm_ = nullptr; t.density_correction_ = old;
        vf_assert_eq(got, plain * s, "LPM effect multiplies the Koch-Motz cross section");
    }
}
// Stanev et al., Phys. Rev. D 25 (1982) 1291
VF_CONTRACT(photopair_lpm_suppression) {
    auto c = any_component();
    static char buf[sizeof(PhotoPairLPM)];
    PhotoPairLPM& l = *(PhotoPairLPM*)buf;
    l.hash = 1; l.mol_density_ = vf_real("mol", 1e20, 1e24); l.mass_density_ = vf_real("rho_m", 0.1, 10); l.sum_charge_ = vf_real("sumZ", 1, 100); l.eLpm_ = vf_real("eLPM", 1e2, 1e16);
    double E = vf_real("E", 1e2, 1e13), x = vf_real("x", 1e-3, 1), dc = vf_real("density_correction", 0.1, 3);
    vf_assume(l.mol_density_ > 0); vf_assume(l.sum_charge_ > 0); vf_assume(l.eLpm_ > 0); vf_assume(E > 0); vf_assume(x > 0); vf_assume(x < 1); vf_assume(dc > 0);
    double s1 = std::sqrt(2.) * sq(std::cbrt(c.GetNucCharge()) / c.GetLogConstant());
    double sp = std::sqrt(l.eLpm_ / (dc * E * x * (1 - x))) / 8, h = std::log(sp) / std::log(s1);
    double xi = sp < s1 ? 2 : (sp < 1 ? 1 + h - 0.08 * (1 - h) * (1 - sq(1 - h)) / std::log(s1) : 1);
    double g = RE / (ALPHA * x), Ga = 1 + 4 * PI * l.sum_charge_ * RE * g * g * l.mol_density_ * dc;
    double s = sp * Ga / std::sqrt(xi);
    double phi = s < 1.54954 ? 1 - std::exp(-6 * s * (1 + (3 - PI) * s) + cube(s) / (0.623 + 0.796 * s + 0.658 * s * s)) : 1 - 0.012 / sq(s * s);
    double G;
    if (s < 0.710390) G = 3 * (1 - std::exp(-4 * s - 8 * s * s / (1 + 3.936 * s + 4.97 * s * s - 0.05 * cube(s) + 7.5 * sq(s * s)))) - 2 * phi;
    else if (s < 0.904912) G = 36 * s * s / (36 * s * s + 1);
    else G = 1 - 0.022 / sq(s * s);
    double want = xi / 3 * (G / (Ga * Ga) + 2 * (x * x + sq(1 - x)) * phi / Ga) / (1 - 4. / 3 * x * (1 - x));
    vf_assert_eq(l.suppression_factor(E, x, c, dc), want, "LPM suppression of pair production by photons");
}
struct AnyPair : PhotoPairProduction {
    std::unique_ptr<Parametrization<Component>> clone() const { return nullptr; }
    double DifferentialCrossSection(const ParticleDef&, const Component& c, double E, double x) const { return vf_uf3("f_pair", c.GetNucCharge(), E, x); }
};
VF_CONTRACT(photopair_lpm_energy) {
    auto p = particle_of_mass(0, 0);
    Component c1 = any_component(), c2 = any_component();
    static char buf[sizeof(Medium)];
    Medium& m = *(Medium*)buf;
    new (&m.components_) std::vector<Component>{c1, c2};
    m.molDensity_ = vf_real("mol", 1e20, 1e24); m.massDensity_ = vf_real("rho_m", 0.1, 10); m.sumCharge_ = vf_real("sumZ", 1, 100); m.sumNucleons_ = vf_real("sumA", 1, 238);
    vf_assume(m.massDensity_ > 0); vf_assume(m.sumNucleons_ > 0); vf_assume(m.molDensity_ > 0); vf_assume(m.sumCharge_ > 0);
    AnyPair par;
    PhotoPairLPM l(p, m, par);
    double sum = 0;
    for (auto& c : {c1, c2})
        sum += c.GetAtomInMolecule() * c.GetAtomicNum() / m.sumNucleons_ * vf_integral(ME / 1e14, 1 - ME / 1e14, [&](double x) { return vf_uf3("f_pair", c.GetNucCharge(), 1e14, x); });
    vf_assert_eq(l.eLpm_, 2 * sq(ALPHA) * ME / (PI * RE * 9. / 7 * sum * m.massDensity_), "LPM energy from the radiation length");
    vf_assert_eq(l.mol_density_, m.molDensity_, "LPM molecule density");
    vf_assert_eq(l.sum_charge_, m.sumCharge_, "LPM charge sum");
}
