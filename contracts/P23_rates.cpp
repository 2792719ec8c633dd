// VF-SOURCES: crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx crosssection/CrossSectionDEDX/CrossSectionDEDX.cxx crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.cxx crosssection/CrossSectionDE2DX/CrossSectionDE2DX.cxx crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx crosssection/parametrization/Compton.cxx crosssection/parametrization/Ionization.cxx crosssection/parametrization/EpairProduction.cxx crosssection/parametrization/MupairProduction.cxx crosssection/parametrization/Photonuclear.cxx crosssection/parametrization/PhotoPairProduction.cxx crosssection/parametrization/ParamTables.cxx math/Integral.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx Logging.cxx EnergyCutSettings.cxx
// VF-REPLACE: ^PROPOSAL::Integral::IntegrateWithRandomRatio\( => vfr_ratio
// VF-REPLACE: ^PROPOSAL::Integral::GetUpperLimit\(\) => vfr_upper
// VF-REPLACE: ^PROPOSAL::crosssection::Compton::GetKinematicLimits\( => vfr_limits_c
// VF-REPLACE: ^PROPOSAL::crosssection::Photonuclear::GetKinematicLimits\( => vfr_limits_c
// VF-REPLACE: ^PROPOSAL::crosssection::Ioniz[A-Za-z]*::GetKinematicLimits\( => vfr_limits_m
// VF-REPLACE: ^PROPOSAL::crosssection::ComptonKleinNishina::DifferentialCrossSection\( => vfr_dsigma_c
// VF-REPLACE: ^PROPOSAL::crosssection::Ioniz[A-Za-z]*::DifferentialCrossSection\( => vfr_dsigma_m
// VF-REPLACE: ^PROPOSAL::crosssection::IonizBetheBlochRossi::(InelCorrection|CrossSectionWithoutInelasticCorrection)\( => vfr_factor_m
// VF-REPLACE: ^PROPOSAL::crosssection::IonizBetheBlochRossi::IonizationLoss\( => vfr_loss_m
// VF-REPLACE: ^PROPOSAL::crosssection::IonizBergerSeltzer[A-Za-z]*::FunctionToDEdxIntegral\( => vfr_factor_m
// VF-ASSUME: Integral::IntegrateWithRandomRatio and GetUpperLimit are represented by the contract proved in P09 (the integral from the first limit to the returned point has the absolute value asked for); differential cross sections and kinematic limits are arbitrary functions
#include "common.hpp"
#include "PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.h"
#include "PROPOSAL/crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.h"
#include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Photonuclear.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include <functional>
using namespace PROPOSAL;
using namespace PROPOSAL::crosssection;

// ------------------------------------------------------------- arbitrary parametrizations
static double dsigma(double E, double v) { return vf_symbolic() ? vf_uf2("dsigma", E, v) : (1 + std::sin(3 * v) * 0.5) / (0.1 + v); }
static KinematicLimits limits(double E) {
    KinematicLimits l;
    if (vf_symbolic()) { l.v_min = vf_uf1("vmin", E); l.v_max = vf_uf1("vmax", E); }
    else { l.v_min = 0.01 + 0.15 * (1 + std::sin(E)); l.v_max = l.v_min + 0.05 + 0.3 * (1 + std::cos(E)); }
    vf_assume(0 < l.v_min); vf_assume(l.v_min < l.v_max); vf_assume(l.v_max < 1);
    return l;
}
extern "C" KinematicLimits vfr_limits_c(const void*, const ParticleDef&, const Component&, double E) { return limits(E); }
extern "C" KinematicLimits vfr_limits_m(const void*, const ParticleDef&, const Medium&, double E) { return limits(E); }
extern "C" double vfr_dsigma_c(const void*, const ParticleDef&, const Component&, double E, double v) { return dsigma(E, v); }
extern "C" double vfr_dsigma_m(const void*, const ParticleDef&, const Medium&, double E, double v) { return dsigma(E, v); }
extern "C" double vfr_factor_m(const void*, const ParticleDef&, const Medium&, double E, double v) { return vf_uf2("factor", E, v); }
extern "C" double vfr_loss_m(const void*, const ParticleDef&, const Medium&, double E) { return vf_uf1("loss", E); }

template <class Base, class Target> struct Any : public Base {
    using Base::Base;
    double DifferentialCrossSection(ParticleDef const&, Target const&, double E, double v) const override { return dsigma(E, v); }
    KinematicLimits GetKinematicLimits(ParticleDef const&, Target const&, double E) const noexcept override { return limits(E); }
};
struct AnyMupair : public Any<MupairProduction, Component> {
    std::unique_ptr<Parametrization<Component>> clone() const override { return std::make_unique<AnyMupair>(*this); }
    double FunctionToIntegral(const ParticleDef&, const Component&, double, double, double) const override { return 0; }
};
struct AnyNuclear : public Photonuclear { // its limits are those of P17
    std::unique_ptr<Parametrization<Component>> clone() const override { return std::make_unique<AnyNuclear>(*this); }
    double DifferentialCrossSection(ParticleDef const&, Component const&, double E, double v) const override { return dsigma(E, v); }
};
template <class T> struct Simple : public Any<Parametrization<T>, T> {
    std::unique_ptr<Parametrization<T>> clone() const override { return std::make_unique<Simple>(*this); }
    double GetLowerEnergyLim(ParticleDef const& p) const noexcept override { return 2 * p.mass; }
};
using AnyM = Simple<Medium>;
using AnyC = Simple<Component>;
struct AnyEpair : public Any<EpairProduction, Component> {
    std::unique_ptr<Parametrization<Component>> clone() const override { return std::make_unique<AnyEpair>(*this); }
};
struct AnyPhotoPair : public Any<PhotoPairProduction, Component> {
    std::unique_ptr<Parametrization<Component>> clone() const override { return std::make_unique<AnyPhotoPair>(*this); }
};

static EnergyCutSettings any_cut() {
    double e = vf_real("ecut", 10, 2e4), v = vf_real("vcut", 0.01, 1);
    vf_assume(e > 0); vf_assume(v > 0); vf_assume(v <= 1);
    return EnergyCutSettings(e, v, false);
}
static double energy(const ParticleDef& p) { double x = vf_real("boost", 20, 1000); vf_assume(x > 0); return x * p.mass; }
// threshold between continuous and stochastic losses
static double threshold(const KinematicLimits& l, const EnergyCutSettings& c, double E) {
    double t = std::min(c.GetEcut() / E, c.GetVcut());
    return std::min(std::max(l.v_min, t), l.v_max);
}
template <class T> static T target() { return any_component(); }
template <> Medium target<Medium>() { return any_medium(); }

// ------------------------------------------------------------- continuous losses
template <class T, class P> static void moments(P param, ParticleDef p) {
    T t = target<T>();
    double E = energy(p);
    auto c = any_cut();
    auto l = param.GetKinematicLimits(p, t, E);
    double up = threshold(l, c, E);
    CrossSectionDEDXIntegral dedx(param, p, t, c);
    vf_assert_eq(dedx.GetLowerEnergyLim(), param.GetLowerEnergyLim(p), "lowest energy");
    vf_assert_eq_tol(dedx.Calculate(E), E * vf_integral(l.v_min, up, [&](double v) { return v * param.DifferentialCrossSection(p, t, E, v); }), "continuous loss is the first moment up to the threshold", 1e-3);
    CrossSectionDE2DXIntegral de2dx(param, p, t, c);
    vf_assert_eq_tol(de2dx.Calculate(E), E * E * vf_integral(l.v_min, up, [&](double v) { return v * v * param.DifferentialCrossSection(p, t, E, v); }), "second moment up to the threshold", 1e-3);
}
VF_CONTRACT(moments_medium) { moments<Medium>(AnyM(), any_particle()); }
VF_CONTRACT(moments_component) { moments<Component>(AnyC(), any_particle()); }
VF_CONTRACT(moments_nuclear) { moments<Component>(AnyNuclear(), any_particle(100, 150)); }
VF_CONTRACT(moments_mupair) { moments<Component>(AnyMupair(), any_particle(100, 150)); }
VF_CONTRACT(moments_photopair) { moments<Component>(AnyPhotoPair(), any_particle()); }

VF_CONTRACT(moments_epair) {
    auto p = any_particle(100, 150); auto t = any_component();
    AnyEpair param;
    double E = energy(p);
    auto c = any_cut();
    auto l = param.GetKinematicLimits(p, t, E);
    double up = threshold(l, c, E);
    CrossSectionDEDXIntegral dedx(param, p, t, c);
    double got = dedx.Calculate(E);
    auto f = [&](double v) { return v * dsigma(E, v); };
    double want;
    double edge = up * (1 - HALF_PRECISION), mid = 0.8;
    bool steep = mid < edge && 2 * f(mid) < f(edge);
    if (vf_symbolic() && steep) {
        // the part above mid is integrated in 1 - v, in two pieces
        if (mid < l.v_min) mid = l.v_min;
        auto g = [&](double u) { return (1 - u) * dsigma(E, 1 - u); };
        double cut = std::min(std::max(1 - up, COMPUTER_PRECISION), 1 - mid);
        want = vf_integral(l.v_min, mid, f) + vf_integral(1 - up, cut, g) + vf_integral(cut, 1 - mid, g);
    } else
        want = vf_integral(l.v_min, up, f);
    vf_assert_eq_tol(got, E * want, "continuous loss is the first moment up to the threshold", 1e-3);
    CrossSectionDE2DXIntegral de2dx(param, p, t, c);
    vf_assert_eq_tol(de2dx.Calculate(E), E * E * vf_integral(l.v_min, up, [&](double v) { return v * v * dsigma(E, v); }), "second moment up to the threshold", 1e-3);
}
VF_CONTRACT(moments_compton) {
    auto p = any_particle(); auto t = any_component();
    ComptonKleinNishina param;
    double E = energy(p);
    auto c = any_cut();
    auto l = param.GetKinematicLimits(p, t, E);
    double up = threshold(l, c, E);
    vf_assume(up < 1);
    CrossSectionDEDXIntegral dedx(param, p, t, c);
    // in t = log(1 - v)
    auto g = [&](double x) { double v = 1 - std::exp(x); return std::exp(x) * v * param.DifferentialCrossSection(p, t, E, v); };
    vf_assert_eq_tol(dedx.Calculate(E), E * vf_integral(std::log(1 - up), std::log(1 - l.v_min), g), "continuous loss is the first moment up to the threshold", 1e-3);
    CrossSectionDE2DXIntegral de2dx(param, p, t, c);
    vf_assert_eq_tol(de2dx.Calculate(E), E * E * vf_integral(l.v_min, up, [&](double v) { return v * v * param.DifferentialCrossSection(p, t, E, v); }), "second moment up to the threshold", 1e-3);
}
VF_CONTRACT(moments_bethe_bloch) {
    auto p = any_particle(100, 150); Medium m = any_medium();
    auto c = any_cut();
    IonizBetheBlochRossi param(c);
    double E = energy(p);
    auto l = param.GetKinematicLimits(p, m, E);
    double up = threshold(l, c, E);
    CrossSectionDEDXIntegral dedx(param, p, m, c);
    // the restricted loss (P20) plus the first moment of the inelastic correction
    auto f = [&](double v) { return v * param.CrossSectionWithoutInelasticCorrection(p, m, E, v) * param.InelCorrection(p, m, E, v); };
    vf_assert_eq_tol(dedx.Calculate(E), E * vf_integral(l.v_min, up, f) + param.IonizationLoss(p, m, E), "continuous loss is the restricted loss with its correction", 1e-3);
    CrossSectionDE2DXIntegral de2dx(param, p, m, c);
    vf_assert_eq_tol(de2dx.Calculate(E), E * E * vf_integral(l.v_min, up, [&](double v) { return v * v * param.DifferentialCrossSection(p, m, E, v); }), "second moment up to the threshold", 1e-3);
}
template <class P> static void electron_loss() {
    auto p = particle_of_mass(ME); Medium m = any_medium();
    auto c = any_cut();
    P param(c);
    double E = energy(p);
    CrossSectionDEDXIntegral dedx(param, p, m, c);
    vf_assert_eq(dedx.Calculate(E), param.FunctionToDEdxIntegral(p, m, E, 0), "continuous loss is the restricted stopping power");
}
VF_CONTRACT(loss_bhabha) { electron_loss<IonizBergerSeltzerBhabha>(); }
VF_CONTRACT(loss_moller) { electron_loss<IonizBergerSeltzerMoller>(); }

// ------------------------------------------------------------- stochastic losses
// contract of the inversion of an integral (P09): a negative ratio asks for the absolute value of the integral
static double a_, b_, rate_;
static std::function<double(double)> f_;
static int calls_;
extern "C" double vfr_ratio(Integral*, double a, double b, const std::function<double(double)>* f, int method, double ratio, double) {
    calls_++;
    a_ = a; b_ = b; rate_ = -ratio; f_ = *f;
    vf_assert(method == 3 || (method == 4 && a > 0 && b > 0), "a method that can be inverted");
    return 0;
}
extern "C" double vfr_upper(Integral*) {
    double x = vf_real("X", 0, 1);
    vf_assert(rate_ > 0, "an absolute rate is inverted");
    if (a_ < b_) { vf_assume(a_ <= x); vf_assume(x <= b_); vf_assume(vf_integral(a_, x, f_) == rate_); }
    else { vf_assume(b_ <= x); vf_assume(x <= a_); vf_assume(vf_integral(x, a_, f_) == rate_); }
    return x;
}
template <class T, class P> static void rates(P param, ParticleDef p, bool cut) {
    T t = target<T>();
    double E = energy(p);
    std::shared_ptr<const EnergyCutSettings> c;
    if (cut) c = std::make_shared<EnergyCutSettings>(any_cut());
    auto l = param.GetKinematicLimits(p, t, E);
    double lo = cut ? threshold(l, *c, E) : l.v_min;
    CrossSectionDNDXIntegral dndx(param, p, t, c);
    vf_assert_eq(dndx.GetLowerEnergyLim(), param.GetLowerEnergyLim(p), "lowest energy");
    auto lim = dndx.GetIntegrationLimits(E);
    vf_assert_eq(lim.min, lo, "stochastic losses begin at the threshold");
    vf_assert_eq(lim.max, l.v_max, "and end at the kinematic limit");
    vf_assume(lo < l.v_max);
    auto f = [&](double v) { return param.DifferentialCrossSection(p, t, E, v); };
    double all = vf_integral(lo, l.v_max, f);
    vf_assert_eq_tol(dndx.Calculate(E), all, "rate is the integral above the threshold", 1e-3);
    double v = vf_real("v", 0, 1);
    if (v > lo) { vf_assume(v < l.v_max); vf_assert_eq_tol(dndx.Calculate(E, v), vf_integral(lo, v, f), "rate up to a loss", 1e-3); }
    else vf_assert_eq(dndx.Calculate(E, v), 0, "no rate below the threshold");
    double u = vf_real("u", 0.02, 0.98), r = vf_symbolic() ? vf_uf1("rate", u) : u * all;
    vf_assume(r > 0);
    double w = dndx.GetUpperLimit(E, r);
    vf_assert_eq_tol(vf_integral(lo, w, f), r, "sampling inverts the rate", 1e-2);
    vf_assert(w >= lo * (1 - 1e-9) && w <= l.v_max * (1 + 1e-9), "the sampled loss lies in the stochastic interval");
}
VF_CONTRACT(rates_medium) { rates<Medium>(AnyM(), any_particle(), true); }
VF_CONTRACT(rates_medium_nocut) { rates<Medium>(AnyM(), any_particle(), false); }
VF_CONTRACT(rates_component) { rates<Component>(AnyC(), any_particle(), true); }
VF_CONTRACT(rates_component_nocut) { rates<Component>(AnyC(), any_particle(), false); }
VF_CONTRACT(rates_photopair) { rates<Component>(AnyPhotoPair(), any_particle(), vf_choose("cut", 2)); }
VF_CONTRACT(rates_epair) { rates<Component>(AnyEpair(), any_particle(), vf_choose("cut", 2)); }
VF_CONTRACT(rates_mupair) { rates<Component>(AnyMupair(), any_particle(), vf_choose("cut", 2)); }
VF_CONTRACT(rates_nuclear) { rates<Component>(AnyNuclear(), any_particle(100, 150), vf_choose("cut", 2)); }
VF_CONTRACT(rates_bethe_bloch) { auto c = any_cut(); rates<Medium>(IonizBetheBlochRossi(c), any_particle(100, 150), true); }
VF_CONTRACT(rates_bhabha) { auto c = any_cut(); rates<Medium>(IonizBergerSeltzerBhabha(c), particle_of_mass(ME), true); }
VF_CONTRACT(rates_moller) { auto c = any_cut(); rates<Medium>(IonizBergerSeltzerMoller(c), particle_of_mass(ME), true); }
VF_CONTRACT(rates_compton) {
    auto p = any_particle(); auto t = any_component();
    ComptonKleinNishina param;
    double E = energy(p);
    auto c = std::make_shared<const EnergyCutSettings>(any_cut());
    auto l = param.GetKinematicLimits(p, t, E);
    double lo = threshold(l, *c, E);
    vf_assume(lo < l.v_max); vf_assume(l.v_max < 1);
    vf_assume(std::log(1 - l.v_max) < std::log(1 - lo)); // monotony of the logarithm
    CrossSectionDNDXIntegral dndx(param, p, t, c);
    auto g = [&](double x) { return std::exp(x) * param.DifferentialCrossSection(p, t, E, 1 - std::exp(x)); };
    double all = vf_integral(std::log(1 - l.v_max), std::log(1 - lo), g);
    vf_assert_eq_tol(dndx.Calculate(E), all, "rate is the integral above the threshold", 1e-3);
    double v = vf_real("v", 0, 1);
    vf_assume(v > lo); vf_assume(v < l.v_max);
    vf_assert_eq_tol(dndx.Calculate(E, v), vf_integral(std::log(1 - v), std::log(1 - lo), g), "rate up to a loss", 1e-3);
    double u = vf_real("u", 0.02, 0.98), r = vf_symbolic() ? vf_uf1("rate", u) : u * all;
    vf_assume(r > 0);
    double w = dndx.GetUpperLimit(E, r);
    vf_assert_eq_tol(vf_integral(std::log(1 - w), std::log(1 - lo), g), r, "sampling inverts the rate", 1e-2);
}
