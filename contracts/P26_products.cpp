// VF-SOURCES: secondaries/SecondariesCalculator.cxx secondaries/parametrization/bremsstrahlung/Bremsstrahlung.cxx secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.cxx secondaries/parametrization/bremsstrahlung/BremsNoDeflection.cxx secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx secondaries/parametrization/compton/NaivCompton.cxx secondaries/parametrization/ionization/NaivIonization.cxx secondaries/parametrization/photoeffect/PhotoeffectNoDeflection.cxx secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx medium/Components.cxx particle/ParticleDef.cxx particle/Particle.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::Cartesian3D::deflect\(double, double\) => vfr_deflect
// VF-REPLACE: ^PROPOSAL::Bisection\( => vfr_bisection
// VF-REPLACE: ^PROPOSAL::RandomGenerator::RandomDouble\(\) => vfr_random
// VF-REPLACE: ^PROPOSAL::RandomGenerator::SetSeed\(int\) => vfr_seed
// VF-REPLACE: ^PROPOSAL::RandomGenerator::RandomGenerator\(\) => vfr_nop
// VF-REPLACE: ^PROPOSAL::RandomGenerator::~RandomGenerator\(\) => vfr_nop
// VF-ASSUME: Cartesian3D::deflect is represented by the contract proved in P03; Bisection by an uninterpreted bracket (P07)
#include "secondaries.hpp"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/secondaries/SecondariesCalculator.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/secondaries/parametrization/photoeffect/PhotoeffectNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
using namespace PROPOSAL::secondaries;
static double g_rho, g_frho, g_lo, g_hi; // ghost: an arbitrary point and the value there of the function whose root is searched
extern "C" std::pair<double, double> vfr_bisection(std::function<double(double)> f, double a, double b, double acc, double n) {
    g_frho = f(g_rho); g_lo = a; g_hi = b;
    return {vf_uf2("root_lo", a, b), vf_uf2("root_hi", a, b)};
}
static double g_u[8]; static int g_n, g_stop; static int g_seed;
extern "C" double vfr_random(RandomGenerator*) { if (g_n >= g_stop) vf_stop(); return g_u[g_n++]; }
extern "C" void vfr_seed(RandomGenerator*, int s) { g_seed = s; }
extern "C" void vfr_nop(RandomGenerator*) {}
static ParticleDef lepton(double lo = 0.5, double hi = 2000) {
    double m = vf_real("mass", lo, hi); vf_assume(m > 0);
    return particle_of_mass(m, 1, 900001);
}
// EGS4 approximation: the photon leaves at m/E, the lepton takes the remaining momentum
VF_CONTRACT(brems_egs4) {
    auto p = lepton();
    auto l = any_loss(InteractionType::Brems, 2100, 1e6);
    double E = l.parent_particle_energy, k = l.energy;
    vf_assume(E > p.mass);
    auto r = any_random(1);
    BremsEGS4Approximation b(p, any_medium());
    auto out = b.CalculateSecondaries(l, any_component(), r);
    vf_cover("reached");
    vf_assert(out.size() == 2, "two products");
    product(out[0], 900001, l, E - k, "the lepton keeps what it did not lose");
    product(out[1], 22, l, k, "the photon takes the loss");
    vf_assert_eq(out[0].propagated_distance, 0, "products have not moved yet");
    leaves(out[1], l, 0, std::cos(p.mass / E), 2 * PI * r[0], "emission angle of the photon");
    Cartesian3D d(l.direction), g(out[1].direction), e(out[0].direction);
    double P = std::sqrt((E - p.mass) * (E + p.mass)), q[3], n = 0;
    for (int i = 0; i < 3; i++) { q[i] = P * d[i] - k * g[i]; n += q[i] * q[i]; }
    for (int i = 0; i < 3; i++) vf_assert(vf_symbolic() ? e[i] == q[i] / std::sqrt(n) : std::abs(e[i] - q[i] / std::sqrt(n)) < 1e-6, "the lepton balances the photon");
    vf_assert(b.RequiredRandomNumbers() == 1, "needs one random number");
    vf_assert(b.GetInteractionType() == InteractionType::Brems, "belongs to bremsstrahlung");
}
VF_CONTRACT(brems_straight) {
    auto p = lepton();
    auto l = any_loss(InteractionType::Brems, 2100, 1e6);
    auto r = any_random(0);
    BremsNoDeflection b(p, any_medium());
    auto out = b.CalculateSecondaries(l, any_component(), r);
    vf_cover("reached");
    vf_assert(out.size() == 2, "two products");
    product(out[0], 900001, l, l.parent_particle_energy - l.energy, "the lepton keeps what it did not lose");
    product(out[1], 22, l, l.energy, "the photon takes the loss");
    keeps(out[0], l); keeps(out[1], l);
    vf_assert(b.RequiredRandomNumbers() == 0, "needs no random number");
    vf_assert(b.GetInteractionType() == InteractionType::Brems, "belongs to bremsstrahlung");
}
// Koch and Motz angles (PIRS-0203): building blocks for all arguments
static double kochmotz_g(double x, double E, double E0, double Z) {
    double r = E / E0, m = sq((1 - r) / (2 * E0 * r)) + sq(std::pow(Z, 1. / 3) / (111 * (x + 1)));
    return 3 * (1 + r * r) - 2 * r - (4 + std::log(m)) * ((1 + r * r) - 4 * x * r / sq(x + 1));
}
VF_CONTRACT(koch_motz_functions) {
    BremsKochMotz b(lepton(), any_medium());
    double E0 = vf_real("E0", 1, 1e4), f = vf_real("f", 0.01, 0.99), Z = vf_real("Z", 1, 92), x = vf_real("x", 0, 100), u = vf_real("u", 0.001, 0.999);
    vf_assume(E0 > 0); vf_assume(f > 0); vf_assume(f < 1); vf_assume(Z >= 1); vf_assume(x >= 0); vf_assume(u >= 0); vf_assume(u < 1);
    double E = f * E0;
    vf_cover("reached");
    vf_assert_eq(b.CalculatePhiCandidate(E0, u), std::sqrt(u / (1 - u + 1 / sq(PI * E0))) / E0, "candidate angle (PIRS-0203 eq. 5)");
    vf_assert_eq(b.g(x, E, E0, Z), kochmotz_g(x, E, E0, Z), "rejection function (EGS5 eq. 2.152)");
    double m = std::max(std::max(kochmotz_g(0, E, E0, Z), kochmotz_g(1, E, E0, Z)), kochmotz_g(sq(PI * E0), E, E0, Z));
    vf_assert_eq(b.N(E, E0, Z), 1 / m, "normalisation (PIRS-0203 eq. 6)");
    // the largest candidate lies at pi
    vf_assert_eq(b.CalculatePhiCandidate(E0, 1), PI, "the largest candidate angle is pi");
    vf_assert_eq(b.CalculatePhiCandidate(E0, 0), 0, "the smallest candidate angle is zero");
}
// the loop accepts a candidate with probability N g: one accepted, or one rejected and one accepted
VF_CONTRACT(brems_koch_motz) {
    auto p = lepton();
    auto l = any_loss(InteractionType::Brems, 2100, 1e5);
    double E = l.parent_particle_energy, k = l.energy;
    vf_assume(E > p.mass);
    auto r = any_random(2);
    auto c = any_component();
    BremsKochMotz b(p, any_medium());
    vf_assert(b.RequiredRandomNumbers() == 2, "needs two random numbers");
    static const char* N[] = {"v0", "v1", "v2", "v3"};
    for (int i = 0; i < 4; i++) { g_u[i] = vf_real(N[i], 0, 1); vf_assume(g_u[i] >= 0); vf_assume(g_u[i] < 1); }
    g_n = 0; g_stop = 4;
    double E0 = E / ME, E1 = (E - k) / ME, Z = c.nucCharge_;
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    vf_assert(out.size() == 2, "two products");
    product(out[0], 900001, l, E - k, "the lepton keeps what it did not lose");
    product(out[1], 22, l, k, "the photon takes the loss");
    if (vf_symbolic()) {
        vf_assert(g_n == 2 || g_n == 4, "two random numbers per candidate");
        double phi = b.CalculatePhiCandidate(E0, g_u[g_n - 2]), nrm = b.N(E1, E0, Z);
        vf_assert(g_u[g_n - 1] <= nrm * b.g(sq(E0 * phi), E1, E0, Z), "the accepted candidate passed the rejection test");
        if (g_n == 4) vf_assert(g_u[1] > nrm * b.g(sq(E0 * b.CalculatePhiCandidate(E0, g_u[0])), E1, E0, Z), "only failing candidates are rejected");
        leaves(out[1], l, 0, std::cos(phi), 2 * PI * r[1], "emission angle of the photon");
    }
    Cartesian3D d(l.direction), g(out[1].direction), e(out[0].direction);
    double P = std::sqrt((E - p.mass) * (E + p.mass)), q[3], n = 0;
    for (int i = 0; i < 3; i++) { q[i] = P * d[i] - k * g[i]; n += q[i] * q[i]; }
    for (int i = 0; i < 3; i++) vf_assert(vf_symbolic() ? e[i] == q[i] / std::sqrt(n) : std::abs(e[i] - q[i] / std::sqrt(n)) < 1e-6, "the lepton balances the photon");
}
// Compton scattering off an electron at rest
VF_CONTRACT(compton) {
    auto l = any_loss(InteractionType::Compton, 0.1, 1e4);
    double E = l.parent_particle_energy, v = l.energy / E;
    double c = 1 - v * ME / (E * (1 - v)), pe = std::sqrt(sq(v * E) + 2 * v * E * ME), ce = v * (E + ME) / pe;
    vf_assume(c >= -1); // kinematically allowed loss
    auto r = any_random(1);
    NaivCompton b(lepton(), any_medium());
    auto out = b.CalculateSecondaries(l, any_component(), r);
    vf_cover("reached");
    vf_assert(out.size() == 2, "two products");
    product(out[0], 22, l, E - l.energy, "the photon keeps what it did not lose");
    product(out[1], 11, l, l.energy + ME, "the electron takes the loss");
    vf_assert_eq(out[0].propagated_distance, 0, "products have not moved yet"); vf_assert_eq(out[1].propagated_distance, 0, "products have not moved yet");
    vf_assert_eq_tol(out[0].energy + out[1].energy, E + ME, "energy is conserved", 1e-9);
    leaves(out[0], l, 0, c, 2 * PI * r[0], "scattering angle of the photon");
    leaves(out[1], l, 1, ce, 2 * PI * r[0] + PI, "recoil angle of the electron");
    balance(l, E, out[0], E - l.energy, out[1], pe);
    vf_assert_eq(b.CalculateRho(E, l.energy), v, "relative energy loss");
    vf_assert(b.RequiredRandomNumbers() == 1, "needs one random number");
    vf_assert(b.GetInteractionType() == InteractionType::Compton, "belongs to Compton scattering");
}
// ionization: elastic scattering off an electron at rest
VF_CONTRACT(ionization) {
    auto p = lepton(50, 2000);
    double m = p.mass;
    auto l = any_loss(InteractionType::Ioniz, 2100, 1e5);
    double E = l.parent_particle_energy, W = l.energy, Ef = E - W;
    vf_assume(Ef > m); vf_assume(E > m);
    double P = std::sqrt((E + m) * (E - m)), pf = std::sqrt((Ef + m) * (Ef - m)), pe = std::sqrt(W * (W + 2 * ME));
    double c = (sq(P) + sq(pf) - sq(pe)) / (2 * P * pf), ce = (sq(P) + sq(pe) - sq(pf)) / (2 * P * pe);
    vf_assume(c <= 1); vf_assume(c >= -1); vf_assume(ce <= 1); vf_assume(ce >= -1); // kinematically allowed loss
    auto r = any_random(1);
    NaivIonization b(p, any_medium());
    auto out = b.CalculateSecondaries(l, any_component(), r);
    vf_cover("reached");
    vf_assert(out.size() == 2, "two products");
    product(out[0], 900001, l, Ef, "the lepton keeps what it did not lose");
    product(out[1], 11, l, W + ME, "the electron takes the loss");
    vf_assert_eq(out[0].propagated_distance, 0, "products have not moved yet"); vf_assert_eq(out[1].propagated_distance, 0, "products have not moved yet");
    vf_assert_eq_tol(out[0].energy + out[1].energy, E + ME, "energy is conserved", 1e-9);
    leaves(out[0], l, 0, c, 2 * PI * r[0], "scattering angle of the lepton");
    leaves(out[1], l, 1, ce, 2 * PI * r[0] + PI, "recoil angle of the electron");
    balance(l, P, out[0], pf, out[1], pe);
    vf_assert(b.RequiredRandomNumbers() == 1, "needs one random number");
    vf_assert(b.GetInteractionType() == InteractionType::Ioniz, "belongs to ionization");
}
// photoelectric effect: the electron takes the photon energy less the K shell binding energy
VF_CONTRACT(photoeffect) {
    auto l = any_loss(InteractionType::Photoeffect, 0.2, 10);
    auto c = any_component();
    double I = sq(c.nucCharge_ * ALPHA) * ME / 2;
    vf_assume(l.parent_particle_energy >= I);
    std::vector<double> r;
    PhotoeffectNoDeflection b(lepton(), any_medium());
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    vf_assert(out.size() == 1, "one product");
    product(out[0], 11, l, l.parent_particle_energy + ME - I, "the electron takes the photon energy less the binding energy");
    keeps(out[0], l);
    vf_assert_eq(out[0].propagated_distance, 0, "products have not moved yet");
    vf_assert(b.RequiredRandomNumbers() == 0, "needs no random number");
    vf_assert(b.GetInteractionType() == InteractionType::Photoeffect, "belongs to the photoelectric effect");
}
// annihilation of a positron with an electron at rest into two photons
VF_CONTRACT(annihilation) {
    auto l = any_loss(InteractionType::Annihilation, 1, 1e4);
    double E = l.parent_particle_energy, g = E / ME;
    vf_assume(E > ME);
    auto p = particle_of_mass(ME, 1, 900001);
    auto r = any_random(2);
    HeitlerAnnihilation b(p, any_medium());
    g_rho = vf_real("rho_g", 0.1, 0.9); vf_assume(g_rho > 0); vf_assume(g_rho < 1);
    double aux = std::sqrt((g - 1) / (g + 1)), lo = (1 - aux) / 2, hi = (1 + aux) / 2;
    double rho;
    if (vf_symbolic()) { rho = vf_uf2("root_lo", lo, hi); vf_assume(rho > 0); vf_assume(rho < 1); }
    else rho = b.CalculateRho(E, r[0], any_component());
    double P = std::sqrt((E - ME) * (E + ME)), c0 = ((E + ME) * (1 - rho) - ME) / ((1 - rho) * P), c1 = ((E + ME) * rho - ME) / (rho * P);
    vf_assume(c0 <= 1); vf_assume(c0 >= -1); vf_assume(c1 <= 1); vf_assume(c1 >= -1);
    auto out = b.CalculateSecondaries(l, any_component(), r);
    vf_cover("reached");
    if (vf_symbolic()) {
        vf_assert_eq(g_lo, lo, "smallest share of a photon"); vf_assert_eq(g_hi, hi, "largest share of a photon");
        // Heitler: dsigma/drho ~ (1 + 2 gamma/(gamma+1)^2)/rho - 1/((gamma+1)^2 rho^2) - 1
        auto F = [&](double x) { return (1 + 2 * g / sq(g + 1)) * std::log(x) + 1 / (sq(g + 1) * x) - x; };
        vf_assert_eq(g_frho, F(g_rho) - F(lo) - r[0] * (F(hi) - F(lo)), "the share follows the integrated cross section");
    } else { // exact kinematic window of the energy share
        vf_assert(rho >= lo * (1 - 1e-6), "smallest share of a photon"); vf_assert(rho <= hi * (1 + 1e-6), "largest share of a photon");
    }
    vf_assert(out.size() == 2, "two products");
    product(out[0], 22, l, (E + ME) * (1 - rho), "energy of the first photon");
    product(out[1], 22, l, (E + ME) * rho, "energy of the second photon");
    vf_assert_eq(out[0].propagated_distance, 0, "products have not moved yet"); vf_assert_eq(out[1].propagated_distance, 0, "products have not moved yet");
    vf_assert_eq_tol(out[0].energy + out[1].energy, E + ME, "energy is conserved", 1e-9);
    leaves(out[0], l, 0, c0, 2 * PI * r[1], "angle of the first photon");
    leaves(out[1], l, 1, c1, 2 * PI * r[1] + PI, "angle of the second photon");
    balance(l, P, out[0], (E + ME) * (1 - rho), out[1], (E + ME) * rho);
    vf_assert(b.RequiredRandomNumbers() == 2, "needs two random numbers");
    vf_assert(b.GetInteractionType() == InteractionType::Annihilation, "belongs to annihilation");
}
// dispatch: each loss is handled by the calculator registered for its type
template <InteractionType T> struct AnyProducts : public secondaries::Parametrization {
    size_t RequiredRandomNumbers() const noexcept override { return T == InteractionType::Brems ? 3 : 7; }
    InteractionType GetInteractionType() const noexcept override { return T; }
    std::vector<ParticleState> CalculateSecondaries(StochasticLoss l, const Component&, std::vector<double>&) override {
        std::vector<ParticleState> v; v.emplace_back(ParticleType::Gamma, l.position, l.direction, T == InteractionType::Brems ? l.energy : 2 * l.energy, l.time, 0.); return v; }
};
VF_CONTRACT(dispatch) {
    SecondariesCalculator s;
    s.addInteraction(std::make_unique<AnyProducts<InteractionType::Epair>>());
    s.addInteraction(std::make_unique<AnyProducts<InteractionType::Brems>>());
    auto c = any_component();
    std::vector<double> r;
    int k = vf_choose("type", 3);
    auto l = any_loss(k == 0 ? InteractionType::Brems : k == 1 ? InteractionType::Epair : InteractionType::Ioniz, 10, 1000);
    bool thrown = false;
    std::vector<ParticleState> out;
    try { out = s.CalculateSecondaries(l, c, r); } catch (const std::logic_error&) { thrown = true; }
    vf_cover("reached");
    vf_assert(thrown == (k == 2), "a loss without calculator is rejected");
    if (k < 2) {
        vf_assert(out.size() == 1, "products of the registered calculator");
        vf_assert_eq(out[0].energy, k == 0 ? l.energy : 2 * l.energy, "each loss is handled by the calculator of its type");
        vf_assert(s.RequiredRandomNumbers(k == 0 ? InteractionType::Brems : InteractionType::Epair) == (k == 0 ? 3 : 7), "random numbers of the registered calculator");
    }
}
