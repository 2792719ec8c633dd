// VF-SOURCES: scattering/stochastic_deflection/bremsstrahlung/BremsTsaiApproximation.cxx scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx scattering/stochastic_deflection/ionization/IonizNaive.cxx scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx scattering/stochastic_deflection/epairproduction/EpairGinneken.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx medium/Components.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::SampleFromExponential\(double, double\) => vfr_expo
// VF-REPLACE: ^PROPOSAL::Bisection\( => vfr_bisection
// VF-ASSUME: SampleFromExponential is represented by its documented quantile function -log(1-p)/lambda (P08); Bisection by an uninterpreted bracket (P07)
#include "common.hpp"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include "PROPOSAL/scattering/stochastic_deflection/ScatteringFactory.h"
#include "PROPOSAL/math/MathMethods.h"
using namespace PROPOSAL::stochastic_deflection;
static double g_nu, g_fnu; // ghost: an arbitrary point and the value there of the function whose root is searched
static double g_lo, g_hi;
extern "C" double vfr_expo(double p, double lambda) { return -std::log(1 - p) / lambda; }
extern "C" std::pair<double, double> vfr_bisection(std::function<double(double)> f, double a, double b, double acc, double n) {
    g_fnu = f(g_nu); g_lo = a; g_hi = b;
    return {vf_uf2("root_lo", a, b), vf_uf2("root_hi", a, b)};
}
struct Event { double m, Ei, Ef, u0, u1; std::vector<double> rnd; ParticleDef p; };
static Event event(double emax) {
    double m = vf_real("mass", 50, 2000), Ei = vf_real("Ei", 200, emax), f = vf_real("f", 0.001, 0.999);
    vf_assume(m > 0); vf_assume(Ei > m); vf_assume(f > 0); vf_assume(f < 1);
    double u0 = vf_real("u0", 0.001, 0.999), u1 = vf_real("u1", 0, 1);
    vf_assume(u0 >= 0); vf_assume(u0 < 1); vf_assume(u1 >= 0); vf_assume(u1 <= 1);
    return Event{m, Ei, m + f * (Ei - m), u0, u1, {u0, u1}, particle_of_mass(m)};
}
static void azimuth(const UnitSphericalVector& a, double u) { vf_assert_eq(a.azimuth, 2 * PI * u, "azimuth is uniform over the full circle"); }

// Tsai: photon angle distribution r dr/(1+r^2)^2 up to r_max, the muon balances the transverse momentum
VF_CONTRACT(brems_tsai) {
    auto e = event(1e6);
    BremsTsaiApproximation d(e.p, any_medium());
    auto a = d.CalculateStochasticDeflection(e.Ei, e.Ef, e.rnd, 0);
    double k = e.Ei - e.Ef, rmax = std::min(1.0, e.Ef / k) * e.Ei / e.m, q = e.u0 * sq(rmax) / (1 + sq(rmax));
    vf_cover("reached");
    vf_assert_eq(a.zenith, k / e.Ef * e.m / e.Ei * std::sqrt(q / (1 - q)), "polar angle of the bremsstrahlung deflection");
    vf_assert(a.zenith >= 0, "polar angle is not negative");
    azimuth(a, e.u1);
    vf_assert(d.RequiredRandomNumbers() == 2, "needs two random numbers");
    vf_assert(d.GetInteractionType() == InteractionType::Brems, "belongs to bremsstrahlung");
}
// elastic scattering off an electron at rest
VF_CONTRACT(ioniz_naive) {
    auto e = event(1e6);
    IonizNaive d(e.p, any_medium());
    double pi = std::sqrt(sq(e.Ei) - sq(e.m)), pf = std::sqrt(sq(e.Ef) - sq(e.m)), c = ((e.Ei + ME) * e.Ef - e.Ei * ME - sq(e.m)) / (pi * pf);
    vf_assume(c <= 1); vf_assume(c >= -1); // kinematically allowed loss
    auto a = d.CalculateStochasticDeflection(e.Ei, e.Ef, e.rnd, 0);
    vf_cover("reached");
    vf_assert_eq(std::cos(a.zenith), c, "polar angle follows from four-momentum conservation");
    vf_assert(a.zenith >= 0, "polar angle is not negative");
    vf_assert(a.zenith <= PI, "polar angle does not exceed pi");
    azimuth(a, e.u0);
    // momentum balance: the electron takes what the muon loses
    vf_assert_eq(sq(pi) + sq(pf) - 2 * pi * pf * std::cos(a.zenith), sq(e.Ei + ME - e.Ef) - sq(ME), "recoil electron is on its mass shell");
    vf_assert(d.RequiredRandomNumbers() == 1, "needs one random number");
    vf_assert(d.GetInteractionType() == InteractionType::Ioniz, "belongs to ionization");
}
// Borog and Petrukhin: four-momentum transfer by inverse transform, then the scattering angle
VF_CONTRACT(photo_borog_petrukhin) {
    auto e = event(1e6);
    PhotoBorogPetrukhin d(e.p, any_medium());
    double k = e.Ei - e.Ef, y = k / e.Ei, tmax = 2 * MP * k, tmin = sq(e.m * y) / (1 - y), t1 = std::min(sq(k), 0.4e6);
    vf_assume(tmin < tmax);
    double t = tmax * t1 / ((tmax + t1) * std::pow(tmax * (tmin + t1) / (tmin * (tmax + t1)), e.u0) - tmax);
    double s2 = (t - tmin) / (4 * (e.Ei * e.Ef - sq(e.m)) - 2 * tmin);
    vf_assume(s2 >= 0); vf_assume(s2 <= 1);
    auto a = d.CalculateStochasticDeflection(e.Ei, e.Ef, e.rnd, 0);
    vf_cover("reached");
    vf_assert_eq(a.zenith, 2 * std::asin(std::sqrt(s2)), "polar angle of the photonuclear deflection"); // within [0, pi]
    azimuth(a, e.u1);
    vf_assert(d.RequiredRandomNumbers() == 2, "needs two random numbers");
    vf_assert(d.GetInteractionType() == InteractionType::Photonuclear, "belongs to photonuclear interaction");
}
// the sampled momentum transfer starts at its maximum
VF_CONTRACT(photo_borog_petrukhin_limits) {
    auto e = event(1e6);
    PhotoBorogPetrukhin d(e.p, any_medium());
    double k = e.Ei - e.Ef, y = k / e.Ei, tmax = 2 * MP * k, tmin = sq(e.m * y) / (1 - y);
    vf_assume(tmin < tmax);
    double s2 = (tmax - tmin) / (4 * (e.Ei * e.Ef - sq(e.m)) - 2 * tmin);
    vf_assume(s2 >= 0); vf_assume(s2 <= 1);
    auto a = d.CalculateStochasticDeflection(e.Ei, e.Ef, {0., e.u1}, 0);
    vf_cover("reached");
    vf_assert_eq_tol(a.zenith, 2 * std::asin(std::sqrt(s2)), "momentum transfer at the ends of the random range", 1e-2);
}
static double exponential_theta(double u, double rms) { return std::sqrt(-std::log(1 - u) * sq(rms)); }
// Van Ginneken, NIM A251 (1986): all energies in GeV
VF_CONTRACT(epair_ginneken) {
    auto e = event(1e6);
    EpairGinneken d(e.p, any_medium());
    double E = e.Ei / 1000, nu = (e.Ei - e.Ef) / (e.Ei - e.m);
    double rms = (2.3 + std::log(E)) / (1 - nu) / E * sq(1 - 2 * ME / (1000 * E * nu))
        * std::min(8.9e-4 * std::pow(nu, 0.25) * (1 + 1.5e-5 * E) + 0.032 * nu / (nu + 1), 0.1);
    vf_assume(rms != 0);
    auto a = d.CalculateStochasticDeflection(e.Ei, e.Ef, e.rnd, 0);
    vf_cover("reached");
    vf_assert_eq(a.zenith, exponential_theta(e.u0, rms), "polar angle of the pair production deflection");
    vf_assert(a.zenith >= 0, "polar angle is not negative");
    azimuth(a, e.u1);
    vf_assert(d.RequiredRandomNumbers() == 2, "needs two random numbers");
    vf_assert(d.GetInteractionType() == InteractionType::Epair, "belongs to pair production");
}
VF_CONTRACT(photo_ginneken) {
    auto e = event(1e6);
    PhotoGinneken d(e.p, any_medium());
    double E = e.Ei / 1000, nu = (e.Ei - e.Ef) / (e.Ei - e.m);
    double rms = 0.39 / (E * (1 - nu)) * std::pow(std::sqrt(E) * nu * (1 - nu), 0.17) * (1 - 0.135 / (E * nu));
    vf_assume(rms != 0);
    auto a = d.CalculateStochasticDeflection(e.Ei, e.Ef, e.rnd, 0);
    vf_cover("reached");
    vf_assert_eq(a.zenith, exponential_theta(e.u0, rms), "polar angle of the photonuclear deflection");
    vf_assert(a.zenith >= 0, "polar angle is not negative");
    azimuth(a, e.u1);
    vf_assert(d.RequiredRandomNumbers() == 2, "needs two random numbers");
    vf_assert(d.GetInteractionType() == InteractionType::Photonuclear, "belongs to photonuclear interaction");
}
VF_CONTRACT(brems_ginneken) {
    auto e = event(1e7);
    auto c = any_component();
    if (!Component::component_map) Component::component_map = std::make_unique<std::map<size_t, Component>>();
    Component::component_map->erase(100); Component::component_map->insert({ 100, c });
    BremsGinneken d(e.p, any_medium());
    double E = e.Ei / 1000, nu = (e.Ei - e.Ef) / (e.Ei - e.m), rms;
    g_nu = vf_real("nu_g", 0.5, 1); vf_assume(g_nu > 0);
    int hard = vf_choose("hard", 2);
    vf_assume(hard ? nu > 0.5 : nu <= 0.5);
    if (!vf_symbolic()) vf_assume(std::abs(nu - 0.5) > 1e-9);
    double k4 = 0.26 * std::pow(E, -0.91), n = 0.81 * std::sqrt(E) / (std::sqrt(E) + 1.8);
    auto f = [=](double x) { return std::pow(x, 1 / n + 1) + std::pow(0.2 / k4, 1 / n) * x - std::pow(0.2 / k4, 1 / n); };
    bool searched = false;
    if (!hard)
        rms = std::max(std::min(0.092 * std::pow(E, -1. / 3) * std::sqrt(nu), 0.052 / E * std::pow(c.GetNucCharge(), -0.25)), 0.22 * std::pow(E, -0.92) * nu);
    else {
        rms = k4 * std::pow(nu, 1 + n) * std::pow(1 - nu, -n);
        if (!(rms < 0.2)) {
            double g = 0.5;
            if (f(0.5) * f(1.) < 0) {
                searched = true;
                if (vf_symbolic()) g = (vf_uf2("root_lo", 0.5, 1) + vf_uf2("root_hi", 0.5, 1)) / 2;
                else { auto b = Bisection(f, 0.5, 1., 1e-5, 100); g = (b.first + b.second) / 2; }
            }
            rms = k4 * std::pow(g, 1 + n) * std::pow(1 - g, 0.5 - n) * std::pow(1 - nu, -0.5);
            vf_assume(!(rms < 0.2)); // below: rejected with an exception
        }
    }
    vf_assume(rms != 0);
    auto a = d.CalculateStochasticDeflection(e.Ei, e.Ef, e.rnd, 100);
    vf_cover("reached");
    vf_assert_eq(a.zenith, exponential_theta(e.u0, rms), "polar angle of the bremsstrahlung deflection");
    vf_assert(a.zenith >= 0, "polar angle is not negative");
    if (searched && vf_symbolic()) vf_assert_eq(g_fnu, f(g_nu), "the transition loss solves the documented equation");
    azimuth(a, e.u1);
    vf_assert(d.RequiredRandomNumbers() == 2, "needs two random numbers");
    vf_assert(d.GetInteractionType() == InteractionType::Brems, "belongs to bremsstrahlung");
}
// a deflection model with arbitrary outcome
template <InteractionType T> struct AnyDeflection : public Parametrization {
    double z, a;
    AnyDeflection(double z, double a) : z(z), a(a) {}
    std::unique_ptr<Parametrization> clone() const override { return std::make_unique<AnyDeflection<T>>(*this); }
    size_t RequiredRandomNumbers() const noexcept override { return T == InteractionType::Brems ? 3 : 7; }
    InteractionType GetInteractionType() const noexcept override { return T; }
    UnitSphericalVector CalculateStochasticDeflection(double, double, std::vector<double> const&, size_t) const override { return {z, a}; }
};
VF_CONTRACT(deflection_multiplier) {
    double z1 = vf_real("z1", 0, 0.5), a1 = vf_real("a1", 0, 6), z2 = vf_real("z2", 0, 0.5), a2 = vf_real("a2", 0, 6), f1 = vf_real("f1", 0, 3), f2 = vf_real("f2", 0, 3);
    vf_assume(z1 * f1 <= PI); vf_assume(z2 * f2 <= PI);
    auto models = [&] { std::vector<std::unique_ptr<Parametrization>> v;
        v.push_back(std::make_unique<AnyDeflection<InteractionType::Brems>>(z1, a1)); v.push_back(std::make_unique<AnyDeflection<InteractionType::Epair>>(z2, a2)); return v; };
    Scattering plain(nullptr, models());
    ScatteringMultiplier one(nullptr, models(), 2., std::vector<std::pair<InteractionType, double>>{{InteractionType::Epair, f2}});
    ScatteringMultiplier two(nullptr, models(), 2., std::vector<std::pair<InteractionType, double>>{{InteractionType::Epair, f2}, {InteractionType::Brems, f1}});
    std::vector<double> r{.1, .2};
    auto check = [&](Scattering& s, double k1, double k2) {
        auto b = s.CalculateStochasticDeflection(InteractionType::Brems, 2., 1., r, size_t(0)), e = s.CalculateStochasticDeflection(InteractionType::Epair, 2., 1., r, size_t(0)),
             o = s.CalculateStochasticDeflection(InteractionType::Ioniz, 2., 1., r, size_t(0));
        vf_assert_eq(b.zenith, k1 * z1, "bremsstrahlung deflection is scaled by its own factor");
        vf_assert_eq(e.zenith, k2 * z2, "pair production deflection is scaled by its own factor");
        vf_assert_eq(b.azimuth, a1, "azimuth is not scaled"); vf_assert_eq(e.azimuth, a2, "azimuth is not scaled");
        vf_assert_eq(o.zenith, 0, "interaction without model is not deflected"); vf_assert_eq(o.azimuth, 0, "interaction without model is not deflected");
        vf_assert(s.StochasticDeflectionRandomNumbers(InteractionType::Brems) == 3, "random numbers of bremsstrahlung");
        vf_assert(s.StochasticDeflectionRandomNumbers(InteractionType::Epair) == 7, "random numbers of pair production");
        vf_assert(s.StochasticDeflectionRandomNumbers(InteractionType::Ioniz) == 0, "no random numbers without model");
    };
    check(plain, 1, 1); check(one, 1, f2); check(two, f1, f2);
    vf_cover("reached");
}
