// VF-SOURCES: propagation_utility/PropagationUtilityIntegral.cxx propagation_utility/PropagationUtilityInterpolant.cxx propagation_utility/Displacment.cxx propagation_utility/DisplacmentBuilder.cxx propagation_utility/Interaction.cxx propagation_utility/InteractionBuilder.cxx propagation_utility/Decay.cxx propagation_utility/DecayBuilder.cxx propagation_utility/Time.cxx propagation_utility/TimeBuilder.cxx propagation_utility/ContRand.cxx propagation_utility/ContRandBuilder.cxx propagation_utility/PropagationUtility.cxx math/Integral.cxx math/MathMethods.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx math/InterpolantBuilder.cxx math/Interpolant.cxx scattering/multiple_scattering/Parametrization.cxx crosssection/CrossSection.cxx crosssection/CrossSectionDNDX/AxisBuilderDNDX.cxx crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx particle/Particle.cxx Constants.cxx decay/DecayTable.cxx Logging.cxx EnergyCutSettings.cxx methods.cxx
// VF-BOUNDED: [in=displacement_.*|sample_.*|interaction_rates] one to three cross sections
// VF-REPLACE: ^PROPOSAL::Integral::IntegrateWithRandomRatio\( => vfr_ratio
// VF-REPLACE: ^PROPOSAL::Integral::GetUpperLimit\(\) => vfr_upper
// VF-REPLACE: ^PROPOSAL::SampleFromGaussian\( => vfr_gauss
// VF-ASSUME: Integral::IntegrateWithRandomRatio and GetUpperLimit are represented by the contract proved in P09 (the signed integral from the first limit to the returned point is the value asked for), SampleFromGaussian by that of P08; energy-loss rates are arbitrary functions of the energy; one to three cross sections; interpolated utilities only as differences of an exact table (the spline library is absent here)
#include "common.hpp"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/propagation_utility/PropagationUtilityInterpolant.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include <functional>
using namespace PROPOSAL;

// ------------------------------------------------------------- arbitrary cross sections
static const char* DEDX[] = { "dedx0", "dedx1", "dedx2" };
static const char* DE2DX[] = { "de2dx0", "de2dx1", "de2dx2" };
static double low_[3];
struct Any : public CrossSectionBase {
    int i; int targets; std::shared_ptr<const EnergyCutSettings> cut;
    Any(int i_, int n = 1, std::shared_ptr<const EnergyCutSettings> c = nullptr) : i(i_), targets(n), cut(c) {}
    double CalculatedEdx(double E) override { return vf_symbolic() ? sq(vf_uf1(DEDX[i], E)) : (i + 1) * (2 + std::sin(E / 1e3)); }
    double CalculatedE2dx(double E) override { return vf_symbolic() ? sq(vf_uf1(DE2DX[i], E)) : (i + 1) * (3 + std::cos(E / 1e3)); }
    double rate(double E, int t) { return vf_symbolic() ? sq(vf_uf3("dndx", i, t, E)) : 0.1 * (i + t + 1) * (1.5 + std::cos(E / 1e3)); }
    double CalculatedNdx(double E) override { double s = 0; for (int t = 0; t < targets; t++) s += rate(E, t); return s; }
    double CalculatedNdx(double E, size_t h) override { return rate(E, (int)h - 100); }
    double CalculateCumulativeCrosssection(double, size_t, double) override { return 0; }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double E) override {
        std::vector<std::pair<size_t, double>> v;
        for (int t = 0; t < targets; t++) v.push_back(std::make_pair(size_t(100 + t), rate(E, t)));
        return v;
    }
    double CalculateStochasticLoss(size_t h, double E, double r) override { return loss(i, h, E, r); }
    static double loss(int i, size_t h, double E, double r) { return vf_uf4("loss", i * 1000 + (double)h, E, r, 0); }
    double GetLowerEnergyLim() const override { return low_[i]; }
    size_t GetHash() const noexcept override { return 5 + i; }
    InteractionType GetInteractionType() const noexcept override { return i == 0 ? InteractionType::Brems : i == 1 ? InteractionType::Epair : InteractionType::Ioniz; }
    std::string GetParametrizationName() const noexcept override { return "any"; }
    std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return cut; }
};
using List = std::vector<std::shared_ptr<CrossSectionBase>>;
static List some(int n, std::shared_ptr<const EnergyCutSettings> cut = nullptr) {
    static const char* L[] = { "low0", "low1", "low2" };
    List l;
    for (int i = 0; i < n; i++) {
        low_[i] = vf_real(L[i], 100, 200); vf_assume(low_[i] > 0);
        l.push_back(std::make_shared<Any>(i, 1, cut));
    }
    return l;
}
static double lowest(int n) { double m = low_[0]; for (int i = 1; i < n; i++) m = std::min(m, low_[i]); return m; }
static double dedx(int n, double E) { double s = 0; for (int i = 0; i < n; i++) s += Any(i).CalculatedEdx(E); return s; }
static double de2dx(int n, double E) { double s = 0; for (int i = 0; i < n; i++) s += Any(i).CalculatedE2dx(E); return s; }
static double dndx(int n, double E) { double s = 0; for (int i = 0; i < n; i++) s += Any(i).CalculatedNdx(E); return s; }
static double energy(const char* n = "E") { double e = vf_real(n, 300, 1e4); vf_assume(e > 0); return e; }

// contract of the inversion of an integral (P09)
static double a_, b_, rate_;
static std::function<double(double)> f_;
extern "C" double vfr_ratio(Integral*, double a, double b, const std::function<double(double)>* f, int method, double ratio, double) {
    a_ = a; b_ = b; rate_ = -ratio; f_ = *f;
    vf_assert(method == 3 || (method == 4 && a > 0 && b > 0), "a method that can be inverted");
    return vf_integral(a, b, *f);
}
extern "C" double vfr_upper(Integral*) {
    double x = vf_real("X", 0, 1);
    vf_assert(rate_ > 0, "an absolute portion is inverted");
    vf_assume(std::min(a_, b_) <= x); vf_assume(x <= std::max(a_, b_));
    vf_assume(vf_integral(a_, x, f_) == rate_);
    return x;
}
extern "C" double vfr_gauss(double m, double s, double u, double lo, double hi) { return vf_uf3("gauss", m, s, u) + vf_uf2("range", lo, hi); }
static double gauss(double m, double s, double u, double lo, double hi) { return vf_symbolic() ? vfr_gauss(m, s, u, lo, hi) : SampleFromGaussian(m, s, u, lo, hi); }

// ------------------------------------------------------------- the integral and its inversion
VF_CONTRACT(utility_calculate) {
    double lim = vf_real("lim", 50, 200), Ei = energy("Ei"), Ef = energy("Ef");
    vf_assume(lim > 0);
    auto f = [](double E) { return vf_uf1("f", E); };
    UtilityIntegral u(f, lim, 7);
    vf_assert_eq_tol(u.Calculate(Ei, Ef), vf_integral(Ei, Ef, f), "integral between the energies", 1e-3);
    vf_assert(u.GetHash() == 7, "identity is kept");
}
VF_CONTRACT(utility_inversion) {
    double lim = vf_real("lim", 50, 200), Ei = energy("Ei");
    vf_assume(lim > 0); vf_assume(lim < Ei);
    // an integrand of one sign, as for every utility: the integral downwards is positive
    auto f = [](double E) { return vf_symbolic() ? -sq(vf_uf1("f", E)) : -1 / (2 + std::sin(E / 1e3)); };
    UtilityIntegral u(f, lim, 7);
    double all = vf_integral(Ei, lim, f);
    double t = vf_real("t", 0.02, 0.98), r = vf_symbolic() ? vf_uf1("portion", t) : t * all;
    vf_assume(0 < r); vf_assume(r < all);
    double x = u.GetUpperLimit(Ei, r);
    vf_assert(x >= lim * (1 - 1e-9), "never below the lower limit");
    vf_assert(x <= Ei * (1 + 1e-9), "never above the start");
    vf_assert_eq_tol(vf_integral(Ei, x, f), r, "the integral from the start to the result is the portion asked for", 1e-2);
    if (vf_symbolic()) vf_assert_eq(u.Calculate(Ei, x), r, "the inversion agrees with the integral");
}
VF_CONTRACT(utility_too_much) {
    double lim = vf_real("lim", 50, 200), Ei = energy("Ei");
    vf_assume(lim > 0); vf_assume(lim < Ei);
    auto f = [](double E) { double r = vf_symbolic() ? vf_uf1("f", E) : -1 / (2 + std::sin(E / 1e3)); return r; };
    UtilityIntegral u(f, lim, 7);
    double all = vf_integral(Ei, lim, f), r = vf_symbolic() ? vf_real("r", 0, 1) : all * vf_real("r", 1.05, 3);
    vf_assume(r > all); vf_assume(all > 0);
    bool thrown = false;
    try { u.GetUpperLimit(Ei, r); } catch (const std::logic_error&) { thrown = true; }
    vf_assert(thrown, "a portion beyond the lower limit is rejected");
}
static void table(bool reverse) {
    double lim = vf_real("lim", 50, 200), Ei = energy("Ei"), Ef = energy("Ef");
    vf_assume(lim > 0); vf_assume(lim < Ef); vf_assume(Ei > Ef * 1.01);
    UtilityInterpolant u([](double E) { return vf_uf1("f", E); }, lim, 7);
    auto def = cubic_splines::CubicSplines<double>::Definition();
    def.f = [](double E) { return vf_uf1("table", E); };
    u.interpolant_ = std::make_shared<UtilityInterpolant::interpolant_t>(std::move(def));
    u.reverse_ = reverse;
    double d = vf_uf1("table", Ei) - vf_uf1("table", Ef);
    vf_assert_eq(u.Calculate(Ei, Ef), reverse ? -d : d, "difference of the table");
}
VF_CONTRACT(interpolant_difference) { table(false); }
VF_CONTRACT(interpolant_difference_reverse) { table(true); }

// ------------------------------------------------------------- displacement
static void displacement(int n) {
    auto l = some(n);
    auto d = make_displacement(l, false);
    double E = energy(), Ef = energy("Ef");
    vf_assert_eq(d->GetLowerLim(), lowest(n), "lowest energy of the cross sections");
    double s = dedx(n, E);
    if (s > 0) vf_assert_eq(d->FunctionToIntegral(E), -1 / s, "inverse of the summed energy loss");
    else vf_assert_eq(d->FunctionToIntegral(E), 0, "no displacement without an energy loss");
    vf_assert_eq_tol(d->SolveTrackIntegral(E, Ef), vf_integral(E, Ef, [&](double e) { return d->FunctionToIntegral(e); }), "grammage between two energies", 1e-3);
}
VF_CONTRACT(displacement_1) { displacement(1); }
VF_CONTRACT(displacement_2) { displacement(2); }
VF_CONTRACT(displacement_3) { displacement(3); }
VF_CONTRACT(displacement_none) {
    bool thrown = false;
    try { make_displacement(List(), false); } catch (const std::invalid_argument&) { thrown = true; }
    vf_assert(thrown, "no cross section is rejected");
}
VF_CONTRACT(displacement_inverse) {
    auto l = some(2);
    auto d = make_displacement(l, false);
    double E = energy(), lim = lowest(2);
    vf_assume(lim < E);
    auto f = [&](double e) { return d->FunctionToIntegral(e); };
    double all = vf_integral(E, lim, f);
    double t = vf_real("t", 0.02, 0.98), r = vf_symbolic() ? vf_uf1("portion", t) : t * all;
    vf_assume(0 < r); vf_assume(r < all);
    double x = d->UpperLimitTrackIntegral(E, r);
    vf_assert(x >= lim * (1 - 1e-9) && x <= E * (1 + 1e-9), "between start and lowest energy");
    vf_assert_eq_tol(vf_integral(E, x, f), r, "energy after the grammage", 1e-2);
}

// ------------------------------------------------------------- time
VF_CONTRACT(time_exact) {
    auto l = some(2);
    auto p = any_particle(0.5, 150);
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto t = make_time(d, p, false);
    auto& b = static_cast<ExactTimeBuilder&>(*t);
    double E = energy();
    vf_assume(E > p.mass);
    double want = 0;
    if (dedx(2, E) > 0) want = -1 / dedx(2, E) * E / (std::sqrt((E - p.mass) * (E + p.mass)) * SPEED);
    vf_assert_eq(b.FunctionToIntegral(E) * 1e11, want * 1e11, "time per lost energy: grammage over velocity");
    double Ei = energy("Ei"), Ef = energy("Ef"), rho = vf_real("rho", 0.1, 10), g = vf_real("g", 0, 10);
    vf_assume(Ei >= Ef); vf_assume(rho > 0); vf_assume(Ef > p.mass); vf_assume(Ef > 0);
    vf_assert_eq_tol(b.TimeElapsed(Ei, Ef, g, rho) * 1e11, 1e11 * vf_integral(Ei, Ef, [&](double e) { return b.FunctionToIntegral(e); }) / rho, "elapsed time", 1e-3);
}
VF_CONTRACT(time_approximate) {
    ApproximateTimeBuilder b;
    double g = vf_real("g", 0, 10), rho = vf_real("rho", 0.1, 10);
    vf_assume(g >= 0); vf_assume(rho > 0);
    vf_assert_eq(b.TimeElapsed(vf_real("Ei", 1, 10), vf_real("Ef", 1, 10), g, rho) * 1e10, 1e10 * g / rho / SPEED, "time at the speed of light");
}

// ------------------------------------------------------------- interactions
VF_CONTRACT(interaction_integrand) {
    auto l = some(2);
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto in = make_interaction(d, l, false, false);
    double E = energy(), Ef = energy("Ef");
    double want = 0;
    if (dedx(2, E) > 0) want = -dndx(2, E) / dedx(2, E);
    vf_assert_eq(in->FunctionToIntegral(E), want, "interactions per lost energy");
    vf_assert_eq_tol(in->EnergyIntegral(E, Ef), vf_integral(E, Ef, [&](double e) { return in->FunctionToIntegral(e); }), "interactions between two energies", 1e-3);
    vf_assume(dndx(2, E) > 0);
    vf_assert_eq(in->MeanFreePath(E), 1 / dndx(2, E), "mean free path is the inverse rate");
}
VF_CONTRACT(interaction_none) {
    auto l = some(1);
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    bool thrown = false;
    try { make_interaction(d, List(), false, false); } catch (const std::invalid_argument&) { thrown = true; }
    vf_assert(thrown, "no cross section is rejected");
}
static void interaction_energy(bool reached) {
    auto l = some(2);
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto in = make_interaction(d, l, false, false);
    double E = energy(), lim = lowest(2);
    vf_assume(lim < E);
    auto f = [&](double e) { return in->FunctionToIntegral(e); };
    double all = vf_integral(E, lim, f);
    double u = vf_symbolic() ? vf_real("u", 0.01, 0.99) : std::exp(-all * (reached ? vf_real("u", 0.05, 0.95) : vf_real("u", 1.05, 3)));
    vf_assume(0 < u); vf_assume(u < 1); vf_assume(std::log(u) < 0);
    vf_assume(reached ? -std::log(u) < all : -std::log(u) > all);
    double x = in->EnergyInteraction(E, u);
    if (reached) {
        vf_assert(x >= lim * (1 - 1e-9) && x <= E * (1 + 1e-9), "between start and lowest energy");
        vf_assert_eq_tol(vf_integral(E, x, f), -std::log(u), "expected number of interactions down to the result", 1e-2);
    } else
        vf_assert_eq(x, lim, "no interaction above the lowest energy");
}
VF_CONTRACT(interaction_energy_reached) { interaction_energy(true); }
VF_CONTRACT(interaction_energy_not_reached) { interaction_energy(false); }
VF_CONTRACT(interaction_rates) {
    auto l = some(2);
    static_cast<Any&>(*l[0]).targets = 2;
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto in = make_interaction(d, l, false, false);
    double E = energy();
    auto r = in->Rates(E);
    vf_assert(r.size() == 3, "one rate for each cross section and target");
    for (int k = 0; k < 3; k++) {
        int i = k / 2, t = k % 2;
        vf_assert(r[k].crosssection == l[i] && r[k].comp_hash == size_t(100 + t), "cross sections and targets in order");
        vf_assert_eq(r[k].rate, static_cast<Any&>(*l[i]).rate(E, t), "rate of the target");
    }
}
static void sample(int n) {
    static const char* N[] = { "r0", "r1", "r2" };
    auto l = some(n);
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto in = make_interaction(d, l, false, false);
    double E = energy(), u = vf_real("u", 0, 1), sum = 0, r[3];
    vf_assume(0 <= u); vf_assume(u < 1);
    std::vector<Interaction::Rate> rates;
    for (int i = 0; i < n; i++) {
        r[i] = vf_real(N[i], 0, 1); vf_assume(r[i] >= 0); sum += r[i];
        rates.push_back(Interaction::Rate { l[i], size_t(100 + i), r[i] });
    }
    vf_assume(sum > 0);
    auto loss = in->SampleLoss(E, rates, u);
    // process i is chosen on the part of the unit interval proportional to its rate
    double below = 0;
    int i = 0;
    for (; i < n; i++) { if (u * sum < below + r[i]) break; below += r[i]; }
    vf_assert(i < n, "a process is chosen");
    vf_assert(loss.type == l[i]->GetInteractionType() && loss.comp_hash == size_t(100 + i), "the process is chosen in proportion to its rate");
    vf_assert_eq(loss.v_loss, Any::loss(i, 100 + i, E, below + r[i] - u * sum), "the loss belongs to the remaining rate");
}
VF_CONTRACT(sample_1) { sample(1); }
VF_CONTRACT(sample_2) { sample(2); }
VF_CONTRACT(sample_3) { sample(3); }
VF_CONTRACT(sample_nothing) {
    auto l = some(1);
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto in = make_interaction(d, l, false, false);
    std::vector<Interaction::Rate> rates { Interaction::Rate { l[0], 100, 0 } };
    auto loss = in->SampleLoss(energy(), rates, vf_real("u", 0, 1));
    vf_assert(loss.type == InteractionType::Undefined && loss.v_loss == 0, "no interaction without a rate");
}

// ------------------------------------------------------------- decay
VF_CONTRACT(decay_integrand) {
    auto l = some(2);
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto p = any_particle(0.5, 150);
    const_cast<double&>(p.lifetime) = vf_real("tau", 1e-8, 1e-5); vf_assume(p.lifetime > 0);
    auto dec = make_decay(d, p, false);
    double E = energy();
    vf_assume(E > p.mass);
    vf_assume(dedx(2, E) > 0);
    // decays per lost energy, up to the lifetime and the density: the velocity times the Lorentz factor is p / m
    vf_assert_eq(dec->FunctionToIntegral(E) * 1e10, -1e10 / dedx(2, E) / (SPEED * std::sqrt((E - p.mass) * (E + p.mass)) / p.mass), "decays per lost energy");
}
static void decay_energy(bool reached) {
    auto l = some(1);
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto p = any_particle(0.5, 90);
    const_cast<double&>(p.lifetime) = vf_real("tau", 1e-8, 1e-5); vf_assume(p.lifetime > 0);
    auto dec = make_decay(d, p, false);
    double E = energy(), lim = lowest(1), rho = vf_real("rho", 0.1, 10);
    vf_assume(lim < E); vf_assume(lim > p.mass); vf_assume(rho > 0);
    auto f = [&](double e) { return dec->FunctionToIntegral(e); };
    double all = vf_integral(E, lim, f) / p.lifetime;
    double u = vf_symbolic() ? vf_real("u", 0.01, 0.99) : std::exp(-all / rho * (reached ? vf_real("u", 0.05, 0.95) : vf_real("u", 1.05, 3)));
    vf_assume(0 < u); vf_assume(u < 1); vf_assume(std::log(u) < 0);
    double need = -std::log(u) * rho;
    vf_assume(reached ? need < all : need > all);
    double x = dec->EnergyDecay(E, u, rho);
    if (reached) {
        vf_assert(x >= lim * (1 - 1e-9) && x <= E * (1 + 1e-9), "between start and lowest energy");
        vf_assert_eq_tol(vf_integral(E, x, f) * 1e8, need * p.lifetime * 1e8, "decay probability down to the result", 1e-2);
    } else
        vf_assert_eq(x, lim, "no decay above the lowest energy");
}
VF_CONTRACT(decay_energy_reached) { decay_energy(true); }
VF_CONTRACT(decay_energy_not_reached) { decay_energy(false); }

// ------------------------------------------------------------- continuous randomization
static std::shared_ptr<const EnergyCutSettings> cut(bool random) { return std::make_shared<const EnergyCutSettings>(500, 0.05, random); }
VF_CONTRACT(randomization) {
    auto l = some(2, cut(true));
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    auto c = make_contrand(d, l, false);
    double E = energy(), Ef = energy("Ef"), u = vf_real("u", 0.02, 0.98), least = vf_real("least", 50, 250);
    vf_assume(E > Ef); vf_assume(0 <= u); vf_assume(u <= 1);
    double want = 0;
    if (dedx(2, E) > 0) want = -de2dx(2, E) / dedx(2, E);
    vf_assert_eq(c->FunctionToIntegral(E), want, "variance per lost energy");
    double var = vf_integral(E, Ef, [&](double e) { return c->FunctionToIntegral(e); });
    vf_assert_eq_tol(c->Variance(E, Ef), var, "variance between two energies", 1e-3);
    double sigma = std::sqrt(std::max(var, 0.));
    vf_assert_eq_tol(c->EnergyRandomize(E, Ef, u, least), gauss(Ef, sigma, u, std::max(lowest(2), least), E), "normal distribution cut at the start and at the lowest energy", 1e-3);
}
VF_CONTRACT(randomization_needs_cut) {
    int k = vf_choose("k", 3);
    List l;
    low_[0] = low_[1] = 100;
    l.push_back(std::make_shared<Any>(0, 1, k == 0 ? nullptr : cut(false)));
    l.push_back(std::make_shared<Any>(1, 1, k == 2 ? cut(true) : cut(false)));
    std::shared_ptr<Displacement> d = make_displacement(l, false);
    bool thrown = false;
    try { make_contrand(d, l, false); } catch (const std::invalid_argument&) { thrown = true; }
    vf_assert(thrown == (k != 2), "only with a cut that asks for it");
}

// ------------------------------------------------------------- the collection
struct FixedDisplacement : public Displacement {
    FixedDisplacement() { lower_lim = 1; hash = 1; }
    double SolveTrackIntegral(double a, double b) override { return vf_uf2("solve", a, b); }
    double UpperLimitTrackIntegral(double a, double b) override { return vf_uf2("upper", a, b); }
};
struct FixedTime : public Time { double TimeElapsed(double a, double b, double c, double d) override { return vf_uf4("time", a, b, c, d); } };
struct FixedDecay : public Decay {
    FixedDecay(std::shared_ptr<Displacement> d) : Decay(d, 1, 1) {}
    double EnergyDecay(double a, double b, double c) override { return vf_uf3("decay", a, b, c); }
};
struct FixedInteraction : public Interaction {
    using Interaction::Interaction;
    double EnergyInteraction(double a, double b) override { return vf_uf2("interaction", a, b); }
    double EnergyIntegral(double a, double b) override { return 0; }
    double MeanFreePath(double a) override { return 1; }
};
struct FixedRand : public ContRand {
    using ContRand::ContRand;
    double Variance(double, double) override { return 0; }
    double EnergyRandomize(double a, double b, double c, double d) override { return vf_uf4("randomize", a, b, c, d); }
};
VF_CONTRACT(collection_calls) {
    auto l = some(1, cut(true));
    PropagationUtility::Collection c;
    auto d = std::make_shared<FixedDisplacement>();
    c.displacement_calc = d;
    c.time_calc = std::make_shared<FixedTime>();
    c.interaction_calc = std::make_shared<FixedInteraction>(d, l);
    bool optional = vf_choose("optional", 2);
    if (optional) { c.decay_calc = std::make_shared<FixedDecay>(d); c.cont_rand = std::make_shared<FixedRand>(d, l); }
    PropagationUtility p(c);
    double a = vf_real("a", 1, 10), b = vf_real("b", 1, 10), g = vf_real("g", 1, 10), h = vf_real("h", 1, 10), u = vf_real("u", 0, 1);
    auto rnd = [u] { return u; };
    vf_assert_eq(p.LengthContinuous(a, b), vf_uf2("solve", a, b), "length");
    vf_assert_eq(p.EnergyDistance(a, b), vf_uf2("upper", a, b), "energy after a distance");
    vf_assert_eq(p.TimeElapsed(a, b, g, h), vf_uf4("time", a, b, g, h), "time");
    vf_assert_eq(p.EnergyInteraction(a, rnd), vf_uf2("interaction", a, u), "energy of the next interaction");
    vf_assert_eq(p.EnergyDecay(a, rnd, g), optional ? vf_uf3("decay", a, u, g) : 0, "energy of the decay");
    vf_assert_eq(p.EnergyRandomize(a, b, rnd, g), optional ? vf_uf4("randomize", a, b, u, g) : b, "randomized energy");
    double w = vf_real("w", 0.01, 0.99); vf_assume(0 <= w); vf_assume(w < 1);
    double r0 = static_cast<Any&>(*l[0]).rate(a, 0);
    vf_assume(r0 > 0);
    auto loss = p.EnergyStochasticloss(a, w);
    vf_assert(loss.type == InteractionType::Brems && loss.comp_hash == 100, "process of the loss");
    vf_assert_eq(loss.v_loss, Any::loss(0, 100, a, r0 - w * r0), "size of the loss");
}
VF_CONTRACT(collection_needed) {
    auto l = some(1);
    PropagationUtility::Collection c;
    auto d = std::make_shared<FixedDisplacement>();
    int k = vf_choose("missing", 4);
    if (k != 0) c.displacement_calc = d;
    if (k != 1) c.time_calc = std::make_shared<FixedTime>();
    if (k != 2) c.interaction_calc = std::make_shared<FixedInteraction>(d, l);
    bool thrown = false;
    try { PropagationUtility p(c); } catch (const std::invalid_argument&) { thrown = true; }
    vf_assert(thrown == (k < 3), "interaction, displacement and time are needed");
}
VF_CONTRACT(collection_equal) {
    auto l = some(1, cut(true));
    PropagationUtility::Collection c;
    auto d = std::make_shared<FixedDisplacement>();
    c.displacement_calc = d;
    c.time_calc = std::make_shared<FixedTime>();
    c.interaction_calc = std::make_shared<FixedInteraction>(d, l);
    c.decay_calc = std::make_shared<FixedDecay>(d);
    c.cont_rand = std::make_shared<FixedRand>(d, l);
    auto e = c;
    int k = vf_choose("other", 6);
    if (k == 0) e.displacement_calc = std::make_shared<FixedDisplacement>();
    if (k == 1) e.time_calc = std::make_shared<FixedTime>();
    if (k == 2) e.interaction_calc = std::make_shared<FixedInteraction>(d, l);
    if (k == 3) e.decay_calc = nullptr;
    if (k == 4) e.cont_rand = nullptr;
    vf_assert((c == e) == (k == 5), "equal exactly if every calculator is the same");
}
