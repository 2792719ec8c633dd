// VF-SOURCES: crosssection/parametrization/Bremsstrahlung.cxx crosssection/parametrization/EpairProduction.cxx crosssection/parametrization/MupairProduction.cxx crosssection/parametrization/Photonuclear.cxx crosssection/parametrization/WeakInteraction.cxx crosssection/parametrization/Compton.cxx crosssection/parametrization/PhotoPairProduction.cxx crosssection/parametrization/PhotoMuPairProduction.cxx crosssection/parametrization/Ionization.cxx EnergyCutSettings.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Photonuclear.h"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/EnergyCutSettings.h"
using namespace PROPOSAL::crosssection;

static void ordered(const KinematicLimits& l) {
    vf_assert(l.v_min >= 0, "lower bound is not negative");
    vf_assert(l.v_min <= l.v_max, "lower bound does not exceed the upper bound");
    vf_assert(!(l.v_min < l.v_max && l.v_max > 1), "a non-empty interval never extends above one");
}
static double sqrt_e() { return std::sqrt(std::exp(1.)); }
// Coulomb-limited upper bound of radiative losses (Petrukhin/Shestakov)
static double vmax_ps(double m, double E, double Z) { return 1 - 0.75 * sqrt_e() * m / E * std::cbrt(Z); }

template <class B> static void brems_limits() {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 1, 1e6);
    vf_assume(E > p.mass);
    B b(false);
    b.lorenz_ = vf_choose("lorenz", 2) == 1;
    b.lorenz_cut_ = vf_real("lorenz_cut", 1, 1e6);
    vf_assume(b.lorenz_cut_ > 0);
    auto l = b.GetKinematicLimits(p, c, E);
    double top = std::max(vmax_ps(p.mass, E, c.GetNucCharge()), 0.);
    vf_assert_eq(l.v_min, 0, "lower bound zero");
    if (b.lorenz_)
        vf_assert_eq(l.v_max, std::min(top, b.lorenz_cut_ / E), "upper bound of bremsstrahlung with Lorenz cut");
    else
        vf_assert_eq(l.v_max, top, "upper bound of bremsstrahlung");
    ordered(l);
    vf_assert_eq(b.GetLowerEnergyLim(p), p.mass, "lowest energy is the rest mass");
}
VF_CONTRACT(limits_brems_petrukhin_shestakov) { brems_limits<BremsPetrukhinShestakov>(); }
VF_CONTRACT(limits_brems_kelner_kokoulin_petrukhin) { brems_limits<BremsKelnerKokoulinPetrukhin>(); }
VF_CONTRACT(limits_brems_complete_screening) { brems_limits<BremsCompleteScreening>(); }
VF_CONTRACT(limits_brems_andreev_bezrukov_bugaev) { brems_limits<BremsAndreevBezrukovBugaev>(); }
VF_CONTRACT(limits_brems_sandrock_soedingrekso_rhode) { brems_limits<BremsSandrockSoedingreksoRhode>(); }
struct DefaultBrems : Bremsstrahlung {
    std::unique_ptr<Parametrization<Component>> clone() const { return nullptr; }
    double CalculateParametrization(const ParticleDef&, const Component&, double, double) const { return 0; }
};
VF_CONTRACT(limits_brems_default) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 1, 1e6);
    vf_assume(E > p.mass);
    DefaultBrems b;
    auto l = b.GetKinematicLimits(p, c, E);
    vf_assert_eq(l.v_min, 0, "lower bound zero");
    vf_assert_eq(l.v_max, 1 - p.mass / E, "at most the kinetic energy is radiated");
    ordered(l);
    vf_assert(!b.lorenz_, "Lorenz cut is off by default");
}
VF_CONTRACT(limits_epair) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 1, 1e6);
    vf_assume(E > p.mass);
    EpairKelnerKokoulinPetrukhin e(false);
    auto l = e.GetKinematicLimits(p, c, E);
    double top = std::min(vmax_ps(p.mass, E, c.GetNucCharge()), 1 - 6 * sq(p.mass / E));
    vf_assert_eq(l.v_min, 4 * ME / E, "lower bound four electron masses");
    if (top < l.v_min) vf_assert_eq(l.v_max, l.v_min, "empty interval below threshold");
    else vf_assert_eq(l.v_max, top, "upper bound of pair production");
    ordered(l);
    vf_assert_eq(e.GetLowerEnergyLim(p), p.mass + 2 * ME, "threshold of electron pair production");
}
VF_CONTRACT(limits_mupair) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 1, 1e6);
    vf_assume(E > p.mass);
    MupairKelnerKokoulinPetrukhin e;
    auto l = e.GetKinematicLimits(p, c, E);
    vf_assert_eq(l.v_min, 2 * MMU / E, "lower bound two muon masses");
    if (E - p.mass < 2 * MMU) vf_assert_eq(l.v_max, l.v_min, "empty interval below threshold");
    else vf_assert_eq(l.v_max, 1 - p.mass / E, "upper bound is the kinetic energy");
    ordered(l);
    vf_assert_eq(e.GetLowerEnergyLim(p), p.mass + 2 * MMU, "threshold of muon pair production");
}
struct AnyPhotonuclear : Photonuclear {
    std::unique_ptr<Parametrization<Component>> clone() const { return nullptr; }
    double DifferentialCrossSection(const ParticleDef&, const Component&, double, double) const { return 0; }
};
VF_CONTRACT(limits_photonuclear) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 1, 1e6), M = c.GetAverageNucleonWeight();
    vf_assume(E > p.mass);
    AnyPhotonuclear e;
    auto l = e.GetKinematicLimits(p, c, E);
    double top = 1;
    if (p.mass < MPI) top = 1 - M * (1 + sq(p.mass / M)) / (2 * E);
    vf_assert_eq(l.v_min, (MPI + MPI * MPI / (2 * M)) / E, "lower bound is the pion production threshold");
    if (top < l.v_min) vf_assert_eq(l.v_max, l.v_min, "empty interval below threshold");
    else vf_assert_eq(l.v_max, top, "upper bound of nuclear interactions");
    ordered(l);
    vf_assert_eq(e.GetLowerEnergyLim(p), p.mass, "lowest energy is the rest mass");
}
struct AnyWeak : WeakInteraction {
    std::unique_ptr<Parametrization<Component>> clone() const { return nullptr; }
    double DifferentialCrossSection(const ParticleDef&, const Component&, double, double) const { return 0; }
};
VF_CONTRACT(limits_weak) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 1, 1e4), M = (MP + MN) / 2;
    vf_assume(E > p.mass);
    AnyWeak e;
    auto l = e.GetKinematicLimits(p, c, E);
    vf_assert_eq(l.v_min, std::min(1e6 / (2 * E * M + M * M), 1.), "lower bound: momentum transfer of 1 GeV^2");
    vf_assert_eq(l.v_max, 1, "upper bound: the whole energy");
    ordered(l);
    vf_assert_eq(e.GetLowerEnergyLim(p), p.mass, "lowest energy is the rest mass");
}
VF_CONTRACT(limits_compton) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 1e-3, 1e4);
    vf_assume(E > 0);
    ComptonKleinNishina e;
    auto l = e.GetKinematicLimits(p, c, E);
    vf_assert_eq(l.v_min, 0, "lower bound zero");
    vf_assert_eq(l.v_max, 2 * E / (ME + 2 * E), "upper bound: backscattering");
    ordered(l);
    vf_assert_eq(e.GetLowerEnergyLim(p), sq(ALPHA) * ME / 2, "lowest energy: hydrogen K shell");
}
VF_CONTRACT(limits_photopair) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 0.5, 1e2);
    vf_assume(E > 0);
    PhotoPairTsai e(false);
    auto l = e.GetKinematicLimits(p, c, E);
    if (E > 2 * ME) {
        vf_assert_eq(l.v_min, ME / E, "lower bound of the asymmetry");
        vf_assert_eq(l.v_max, 1 - ME / E, "upper bound of the asymmetry");
    } else {
        vf_assert_eq(l.v_min, 0.5, "empty interval below threshold");
        vf_assert_eq(l.v_max, 0.5, "empty interval below threshold");
    }
    ordered(l);
    vf_assert_eq(e.GetLowerEnergyLim(p), 2 * ME, "threshold of pair production by photons");
}
VF_CONTRACT(limits_photomupair) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 50, 1e4), th = 2 * MMU * sqrt_e();
    vf_assume(E > 0);
    PhotoMuPairBurkhardtKelnerKokoulin e;
    auto l = e.GetKinematicLimits(p, c, E);
    if (E > th) {
        double s = std::sqrt(1 - th / E);
        vf_assert_eq(l.v_min, (1 - s) / 2, "lower bound of the asymmetry");
        vf_assert_eq(l.v_max, (1 + s) / 2, "upper bound of the asymmetry");
    } else {
        vf_assert_eq(l.v_min, 0.5, "empty interval below threshold");
        vf_assert_eq(l.v_max, 0.5, "empty interval below threshold");
    }
    ordered(l);
    vf_assert_eq(e.GetLowerEnergyLim(p), th, "threshold of muon pair production by photons");
}
static EnergyCutSettings& any_cut() {
    static char buf[sizeof(EnergyCutSettings)];
    EnergyCutSettings& c = *(EnergyCutSettings*)buf;
    c.ecut_ = 500; c.vcut_ = 1; c.continuous_randomization_ = false;
    return c;
}
VF_CONTRACT(limits_ioniz_ordered) {
    auto p = any_particle(); Medium& m = any_medium();
    double E = vf_real("E", 1, 1e6);
    vf_assume(E > p.mass);
    int which = vf_choose("parametrization", 3);
    KinematicLimits l;
    if (which == 0) l = IonizBetheBlochRossi(any_cut()).GetKinematicLimits(p, m, E);
    if (which == 1) l = IonizBergerSeltzerBhabha(any_cut()).GetKinematicLimits(p, m, E);
    if (which == 2) l = IonizBergerSeltzerMoller(any_cut()).GetKinematicLimits(p, m, E);
    ordered(l);
}
