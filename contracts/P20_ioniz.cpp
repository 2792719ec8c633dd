// VF-SOURCES: crosssection/parametrization/Ionization.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx EnergyCutSettings.cxx
// VF-REPLACE: ^PROPOSAL::calculate_proton_massnumber_fraction\( => vfr_za
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/EnergyCutSettings.h"
using namespace PROPOSAL::crosssection;

static double ZoverA() { double x = vf_uf1("ZoverA", 1); vf_assume(x > 0); return x; }
extern "C" double vfr_za(const std::vector<Component>&) { return ZoverA(); }

static EnergyCutSettings& any_cut() {
    static char buf[sizeof(EnergyCutSettings)];
    EnergyCutSettings& c = *(EnergyCutSettings*)buf;
    c.ecut_ = vf_real("ecut", 1, 1e5); c.vcut_ = vf_real("vcut", 1e-4, 1); c.continuous_randomization_ = false;
    vf_assume(c.ecut_ > 0); vf_assume(c.vcut_ > 0); vf_assume(c.vcut_ <= 1);
    return c;
}
// Sternheimer density effect
static double density_effect(const Medium& m, double beta, double gamma) {
    double X = std::log10(beta * gamma);
    if (X < m.GetX0()) return m.GetD0() * std::pow(10., 2 * (X - m.GetX0()));
    double d = 2 * std::log(10.) * X + m.GetC();
    if (X < m.GetX1()) d += m.GetA() * std::pow(m.GetX1() - X, m.GetM());
    return d;
}
VF_CONTRACT(ioniz_density_effect) {
    Medium& m = any_medium();
    double beta = vf_real("beta", 0.1, 1), gamma = vf_real("gamma", 1, 1e5);
    vf_assume(beta > 0); vf_assume(gamma >= 1);
    IonizBetheBlochRossi b(any_cut());
    vf_cover("reached");
    vf_assert_eq(b.Delta(m, beta, gamma), density_effect(m, beta, gamma), "Sternheimer density effect correction");
}
// PDG eq. 33.4 : maximal energy transfer to a free electron
static double bb_vmax(double m, double E) {
    double g = E / m, r = ME / m;
    return 2 * ME * (g * g - 1) / ((1 + 2 * g * r + r * r) * E);
}
VF_CONTRACT(ioniz_bethe_bloch_limits) {
    auto p = any_particle(); Medium& m = any_medium();
    double E = vf_real("E", 1, 1e8);
    vf_assume(E > p.mass);
    IonizBetheBlochRossi b(any_cut());
    auto l = b.GetKinematicLimits(p, m, E);
    vf_assert_eq(l.v_min, 1e-6 * m.GetI() / E, "lower limit is the mean excitation energy");
    double top = std::min(bb_vmax(p.mass, E), 1 - p.mass / E);
    vf_assert_eq(l.v_max, std::max(top, 1e-6 * m.GetI() / E), "upper limit is the maximal transfer, at most the kinetic energy");
}
struct BB { double E, v, beta2, gamma, vmax, z2ZA; };
static BB bb(const ParticleDef& p, const Medium& m) {
    BB k;
    k.E = vf_real("E", 1e2, 1e8); k.v = vf_real("v", 1e-6, 1);
    vf_assume(k.E > p.mass);
    vf_assume(k.v > 0); vf_assume(k.v < 1);
    k.gamma = k.E / p.mass; k.beta2 = 1 - sq(p.mass / k.E);
    k.vmax = std::max(std::min(bb_vmax(p.mass, k.E), 1 - p.mass / k.E), 1e-6 * m.GetI() / k.E);
    k.z2ZA = sq(p.charge) * ZoverA();
    return k;
}
// PDG eq. 33.8 with the spin-1/2 term of Rossi
static double knock_on(const BB& k) {
    return IONK * k.z2ZA / (2 * k.beta2 * k.E * sq(k.v)) * (1 - k.beta2 * k.v / k.vmax + 0.5 * sq(k.v * k.gamma / (1 + k.gamma)));
}
// Kelner/Kokoulin/Petrukhin, Phys. Atom. Nucl. 60 (1997) 657, eq. 30
static double ebrems(const ParticleDef& p, const BB& k) {
    double a = std::log(1 + 2 * k.v * k.E / ME), b = std::log((1 - k.v / k.vmax) / (1 - k.v)), c = std::log(2 * k.gamma * (1 - k.v) * ME / (p.mass * k.v));
    return ALPHA / (2 * PI) * (a * (2 * b + c) - b * b);
}
VF_CONTRACT(ioniz_bethe_bloch_rossi) {
    auto p = any_particle(); Medium& m = any_medium(); auto k = bb(p, m);
    vf_assume(k.v < k.vmax);
    IonizBetheBlochRossi b(any_cut());
    vf_assert_eq(b.DifferentialCrossSection(p, m, k.E, k.v), knock_on(k) * (1 + ebrems(p, k)), "knock-on electrons with bremsstrahlung of the atomic electron");
    vf_assert_eq(b.FunctionToDEdxIntegral(p, m, k.E, k.v), k.v * knock_on(k) * ebrems(p, k), "energy loss integrand of the radiative correction");
}
// PDG eq. 33.10 : restricted energy loss
VF_CONTRACT(ioniz_bethe_bloch_loss) {
    auto p = any_particle(); Medium& m = any_medium(); auto k = bb(p, m);
    EnergyCutSettings& c = any_cut();
    IonizBetheBlochRossi b(c);
    double vup = std::min(k.vmax, std::min(c.ecut_ / k.E, c.vcut_)), beta = std::sqrt(k.beta2);
    double I = 1e-6 * m.GetI();
    double L = std::log(2 * ME * k.beta2 * sq(k.gamma) * vup * k.E / (I * I)) - k.beta2 * (1 + vup / k.vmax) + sq(vup / (2 * (1 + 1 / k.gamma))) - density_effect(m, beta, k.gamma);
    double want = L > 0 ? IONK * k.z2ZA / (2 * k.beta2) * L : 0;
    if (vup == I / k.E) want = 0;
    vf_assert_eq(b.IonizationLoss(p, m, k.E), want, "restricted Bethe-Bloch energy loss");
}
// EGS5: Bhabha and Moeller scattering, Berger-Seltzer restricted loss
struct EE { double E, v, g, b2, eps; };
static EE ee(const ParticleDef& p) {
    EE k; k.E = vf_real("E", 1, 1e7); k.v = vf_real("v", 1e-6, 1);
    vf_assume(k.E > p.mass); vf_assume(k.v > 0); vf_assume(k.v < 1 - p.mass / k.E);
    k.g = k.E / p.mass; k.b2 = 1 - 1 / (k.g * k.g); k.eps = k.v * k.E / (k.E - p.mass);
    return k;
}
static double ee_pre(const EE& k) { return 2 * PI * RE * RE * NA * ZoverA() / (k.g - 1) * k.g / (k.g - 1); }
VF_CONTRACT(ioniz_bhabha) {
    auto p = any_particle(); Medium& m = any_medium(); auto k = ee(p);
    IonizBergerSeltzerBhabha b(any_cut());
    double y = 1 / (k.g + 1), t = 1 - 2 * y, e = k.eps;
    double s = 1 / (k.b2 * e * e) - (2 - y * y) / e + t * (3 + y * y) - (t * t + cube(t)) * e + cube(t) * e * e;
    vf_assert_eq(b.DifferentialCrossSection(p, m, k.E, k.v), std::max(ee_pre(k) * s, 0.), "Bhabha cross section");
    auto l = b.GetKinematicLimits(p, m, k.E);
    vf_assert_eq(l.v_min, 0, "Bhabha lower limit");
    vf_assert_eq(l.v_max, 1 - p.mass / k.E, "Bhabha upper limit: the whole kinetic energy");
}
VF_CONTRACT(ioniz_moller) {
    auto p = any_particle(); Medium& m = any_medium(); auto k = ee(p);
    vf_assume(2 * k.v < 1 - p.mass / k.E);
    IonizBergerSeltzerMoller b(any_cut());
    double g = k.g, e = k.eps, f = 1 - e;
    double s = (sq((g - 1) / g) + 1 / (e * e) + 1 / (f * f) - (2 * g - 1) / (g * g) * (1 / e + 1 / f)) / k.b2;
    vf_assert_eq(b.DifferentialCrossSection(p, m, k.E, k.v), std::max(ee_pre(k) * s, 0.), "Moeller cross section");
    auto l = b.GetKinematicLimits(p, m, k.E);
    vf_assert_eq(l.v_min, 0, "Moeller lower limit");
    vf_assert_eq(l.v_max, 0.5 * (1 - p.mass / k.E), "Moeller upper limit: half the kinetic energy");
}
template <class B> static void berger_seltzer(bool positron, const char* what) {
    auto p = particle_of_mass(ME);
    Medium& m = any_medium();
    double E = vf_real("E", 1, 1e7);
    vf_assume(E > ME);
    EnergyCutSettings& c = any_cut();
    B b(c);
    double vmax = (positron ? 1 : 0.5) * (1 - ME / E), D = std::min(vmax, std::min(c.ecut_ / E, c.vcut_)) * E / ME;
    double g = E / ME, b2 = 1 - 1 / (g * g), tau = g - 1, y = 1 / (g + 1), F;
    if (positron)
        F = std::log(tau * D) - b2 / tau * (tau + 2 * D - 1.5 * D * D * y - (D - cube(D) / 3) * y * y - (D * D / 2 - tau * cube(D) / 3 + sq(D * D) / 4) * cube(y));
    else
        F = -1 - b2 + std::log((tau - D) * D) + tau / (tau - D) + (D * D / 2 + (2 * tau + 1) * std::log(1 - D / tau)) / (g * g);
    double I = 1e-6 * m.GetI() / ME;
    double L = 2 * PI * RE * RE * ME * NA * ZoverA() / b2 * (std::log(2 * (tau + 2) / (I * I * ME)) + F - density_effect(m, std::sqrt(b2), g));
    vf_assert_eq(b.FunctionToDEdxIntegral(p, m, E, 0.5), std::max(L, 0.), what);
}
VF_CONTRACT(ioniz_berger_seltzer_positron) { berger_seltzer<IonizBergerSeltzerBhabha>(true, "Berger-Seltzer restricted loss of positrons"); }
VF_CONTRACT(ioniz_berger_seltzer_electron) { berger_seltzer<IonizBergerSeltzerMoller>(false, "Berger-Seltzer restricted loss of electrons"); }
