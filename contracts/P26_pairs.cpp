// VF-SOURCES: secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.cxx secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.cxx secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.cxx secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.cxx crosssection/parametrization/PhotoPairProduction.cxx crosssection/parametrization/PhotoMuPairProduction.cxx crosssection/parametrization/WeakInteraction.cxx crosssection/parametrization/ParamTables.cxx crosssection/parametrization/EpairProduction.cxx crosssection/parametrization/MupairProduction.cxx crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx math/Integral.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx particle/Particle.cxx Constants.cxx decay/DecayTable.cxx Logging.cxx EnergyCutSettings.cxx
// VF-REPLACE: ^PROPOSAL::Cartesian3D::deflect\(double, double\) => vfr_deflect
// VF-REPLACE: ^PROPOSAL::Integral::IntegrateWithRandomRatio\( => vfr_ratio
// VF-REPLACE: ^PROPOSAL::Integral::GetUpperLimit\(\) => vfr_upper
// VF-REPLACE: ^PROPOSAL::crosssection::MupairKelnerKokoulinPetrukhin::FunctionToIntegral\( => vfr_rho
// VF-REPLACE: ^PROPOSAL::crosssection::EpairKelnerKokoulinPetrukhin::FunctionToIntegral\( => vfr_rho
// VF-REPLACE: ^PROPOSAL::crosssection::EpairForElectronPositron::FunctionToIntegral\( => vfr_rho
// VF-REPLACE: ^PROPOSAL::Interpolant::Interpolant\(std::vector => vfr_table_ctor
// VF-REPLACE: ^PROPOSAL::secondaries::WeakCooperSarkarMertsch::generate_hash\( => vfr_hash
// VF-REPLACE: ^PROPOSAL::Interpolant::~Interpolant\(\) => vfr_table_dtor
// VF-ASSUME: Cartesian3D::deflect is represented by the contract proved in P03; Integral::IntegrateWithRandomRatio by an arbitrary point of its interval; the tables of integrated rates are arbitrary functions (P23)
#include "secondaries.hpp"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/NaivEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/photonuclear/Photonuclear.h"
#include "PROPOSAL/secondaries/parametrization/photoproduction/Photoproduction.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.h"
#include "PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.h"
#include "PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.h"
using namespace PROPOSAL::secondaries;
static double g_lo[2], g_hi[2], g_rnd[2], g_f[2], g_x; static int g_ints, g_positive;
extern "C" double vfr_ratio(Integral*, double lo, double hi, std::function<double(double)> f, int, double rnd) {
    if (g_ints < 2) { g_lo[g_ints] = lo; g_hi[g_ints] = hi; g_rnd[g_ints] = rnd; g_f[g_ints] = f(g_x); }
    g_ints++;
    return g_positive;
}
static double upper(double lo, double hi, double rnd) { return lo + (hi - lo) * vf_uf3("sampled", lo, hi, rnd); }
extern "C" double vfr_upper(Integral*) { return upper(g_lo[g_ints - 1], g_hi[g_ints - 1], g_rnd[g_ints - 1]); }
extern "C" double vfr_rho(const void*, const ParticleDef& p, const Component& c, double E, double v, double rho) { return vf_uf3("dsigma_drho", E, v, rho); }
extern "C" void vfr_table_ctor(void*, const std::vector<double>&, const std::vector<double>&, const std::vector<std::vector<double>>&, int, bool, bool, int, bool, bool) {}
extern "C" size_t vfr_hash(void*, const ParticleDef&, const Medium&) { return 5; }
extern "C" void vfr_table_dtor(void*) {}
static ParticleDef lepton(double lo = 0.5, double hi = 2000) {
    double m = vf_real("mass", lo, hi); vf_assume(m > 0);
    return particle_of_mass(m, 1, 900001);
}
static void pair(const std::vector<ParticleState>& out, const StochasticLoss& l, double rho, int lepton, double m, int neg, int pos) {
    vf_assert(out.size() == 3, "three products");
    product(out[0], lepton, l, l.parent_particle_energy - l.energy, "the lepton keeps what it did not lose");
    product(out[1], neg, l, l.energy * (1 + rho) / 2, "energy of the negative particle of the pair");
    product(out[2], pos, l, l.energy * (1 - rho) / 2, "energy of the positive particle of the pair");
    vf_assert_eq_tol(out[1].energy + out[2].energy, l.energy, "the pair takes the whole loss", 1e-9);
    for (auto& s : out) keeps(s, l);
    (void)m;
}
static double share(const std::vector<ParticleState>& out, const StochasticLoss& l) { return out.size() == 3 ? (out[1].energy - out[2].energy) / l.energy : 0; } // natively
VF_CONTRACT(muon_pair) {
    auto p = lepton(100, 2000);
    auto l = any_loss(InteractionType::MuPair, 2500, 1e6);
    double E = l.parent_particle_energy, v = l.energy / E, hi = 1 - 2 * MMU / l.energy;
    auto r = any_random(3);
    int wide = vf_choose("wide", 2), sign = vf_choose("sign", 2);
    vf_assume(wide ? hi >= 0 : hi < 0); vf_assume(sign ? r[1] >= 0.5 : r[1] < 0.5);
    g_ints = 0; g_positive = 1; g_x = vf_real("rho_g", 0, 1);
    KelnerKokoulinPetrukhinMupairProduction b(p, any_medium());
    auto c = any_component();
    if (!vf_symbolic() && wide) { // natively: losses which can occur
        double x = 0; for (int i = 0; i < 20; i++) x += crosssection::MupairKelnerKokoulinPetrukhin().FunctionToIntegral(p, c, E, v, (i + 0.5) / 20 * hi);
        vf_assume(x > 0 && std::isfinite(x)); }
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    double rho = wide ? (sign ? 1 : -1) * upper(0, hi, r[0]) : 0;
    if (vf_symbolic()) {
        vf_assert(g_ints == wide, "the asymmetry is sampled");
        if (wide) {
            vf_assert_eq(g_lo[0], 0, "smallest asymmetry"); vf_assert_eq(g_hi[0], hi, "largest asymmetry"); vf_assert_eq(g_rnd[0], r[0], "first random number selects the asymmetry");
            vf_assert_eq(g_f[0], vf_uf3("dsigma_drho", E, v, g_x), "the asymmetry follows the differential cross section");
        }
    } else rho = share(out, l);
    pair(out, l, rho, 900001, MMU, 13, -13);
    if (!vf_symbolic()) { vf_assert(std::abs(rho) <= std::max(0., hi) + 1e-9, "the muons have at least their rest energy"); vf_assert(rho == 0 || (rho > 0) == (sign == 1), "second random number selects the sign"); }
    vf_assert_eq(out[0].propagated_distance, l.propagated_distance, "the lepton keeps its distance"); vf_assert_eq(out[1].propagated_distance, 0, "products have not moved yet");
    vf_assert(b.RequiredRandomNumbers() == 3, "needs three random numbers");
    vf_assert(b.GetInteractionType() == InteractionType::MuPair, "belongs to muon pair production");
}
template <class T> static void electron_pair() {
    auto p = lepton(0.5, 2000);
    auto l = any_loss(InteractionType::Epair, 2500, 1e6);
    double E = l.parent_particle_energy, v = l.energy / E, a = 1 - 4 * ME / l.energy, b2 = 1 - 6 * sq(p.mass) / (sq(E) * (1 - v));
    auto r = any_random(3);
    vf_assume(a > 0);
    double hi = std::sqrt(a) * b2;
    int wide = vf_choose("wide", 2), sign = vf_choose("sign", 2), zero = vf_choose("zero", 2);
    vf_assume(wide ? hi >= 0 : hi < 0); vf_assume(sign ? r[1] >= 0.5 : r[1] < 0.5);
    g_ints = 0; g_positive = !zero; g_x = vf_real("rho_g", 0, 1);
    T b(p, any_medium());
    auto c = any_component();
    bool thrown = false;
    std::vector<ParticleState> out;
    try { out = b.CalculateSecondaries(l, c, r); } catch (const std::logic_error&) { thrown = true; }
    vf_cover("reached");
    vf_assert(thrown == !wide, "a loss outside the kinematic range is rejected");
    if (thrown) return;
    double rho = zero ? 0 : (sign ? 1 : -1) * upper(0, hi, r[0]);
    if (vf_symbolic()) {
        vf_assert(g_ints == 1, "the asymmetry is sampled");
        vf_assert_eq(g_lo[0], 0, "smallest asymmetry"); vf_assert_eq(g_hi[0], hi, "largest asymmetry"); vf_assert_eq(g_rnd[0], r[0], "first random number selects the asymmetry");
        vf_assert_eq(g_f[0], vf_uf3("dsigma_drho", E, v, g_x), "the asymmetry follows the differential cross section");
    } else rho = share(out, l);
    pair(out, l, rho, 900001, ME, 11, -11);
    if (!vf_symbolic()) { vf_assert(std::abs(rho) <= hi + 1e-9, "the electrons stay in the kinematic range"); vf_assert(rho == 0 || (rho > 0) == (sign == 1), "second random number selects the sign"); }
    vf_assert_eq(out[0].propagated_distance, l.propagated_distance, "the lepton keeps its distance"); vf_assert_eq(out[1].propagated_distance, 0, "products have not moved yet");
    vf_assert(b.RequiredRandomNumbers() == 3, "needs three random numbers");
    vf_assert(b.GetInteractionType() == InteractionType::Epair, "belongs to electron pair production");
}
VF_CONTRACT(electron_pair_kelner) { electron_pair<KelnerKokoulinPetrukhinEpairProduction>(); }
VF_CONTRACT(electron_pair_light) { electron_pair<ForElectronPositronEpairProduction>(); }
VF_CONTRACT(hadronic) {
    auto p = lepton();
    auto l = any_loss(InteractionType::Photonuclear, 10, 1e5);
    std::vector<double> r;
    auto c = any_component();
    secondaries::Photonuclear b(p, any_medium());
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    vf_assert(out.size() == 2, "two products");
    product(out[0], 900001, l, l.parent_particle_energy - l.energy, "the lepton keeps what it did not lose");
    product(out[1], (int)ParticleType::Hadron, l, l.energy, "the hadrons take the loss");
    for (auto& s : out) { keeps(s, l); vf_assert_eq(s.propagated_distance, 0, "products have not moved yet"); }
    vf_assert(b.RequiredRandomNumbers() == 0, "needs no random number");
    vf_assert(b.GetInteractionType() == InteractionType::Photonuclear, "belongs to photonuclear interaction");
    secondaries::Photoproduction h(p, any_medium());
    auto o2 = h.CalculateSecondaries(l, c, r);
    vf_assert(o2.size() == 1, "one product");
    product(o2[0], (int)ParticleType::Hadron, l, l.energy, "the hadrons take the whole energy");
    keeps(o2[0], l);
    vf_assert(h.RequiredRandomNumbers() == 0, "needs no random number");
    vf_assert(h.GetInteractionType() == InteractionType::Photoproduction, "belongs to photoproduction");
    NaivEpairProduction n(p, any_medium());
    vf_assert(n.CalculateSecondaries(l, c, r).empty(), "the naive pair model has no products");
}
// tables of integrated rates: arbitrary functions of energy and limit
struct AnyRate : public CrossSectionDNDX {
    int k;
    AnyRate(int k) : CrossSectionDNDX([](double) { crosssection::KinematicLimits l; l.v_min = vf_uf1("vmin", 1); l.v_max = vf_uf1("vmax", 1); return l; }, 0., nullptr, 0), k(k) {}
    double Calculate(double E) override { return vf_uf2("total", E, k); }
    double Calculate(double E, double v) override { return vf_uf3("upto", E, v, k); }
    double GetUpperLimit(double E, double rate) override { return vf_uf3("limit", E, rate, k); }
};
using Tables = std::unordered_map<size_t, std::tuple<double, std::unique_ptr<CrossSectionDNDX>>>;
static std::unique_ptr<Tables> tables() {
    auto t = std::make_unique<Tables>();
    t->emplace(2, std::make_tuple(1., std::make_unique<AnyRate>(2)));
    t->emplace(1, std::make_tuple(1., std::make_unique<AnyRate>(1)));
    return t;
}
static double sampled(double E, double u) { return vf_uf3("limit", E, u * vf_uf3("upto", E, vf_uf1("vmax", 1), 1), 1); }
static void photon_pair(const std::vector<ParticleState>& out, const StochasticLoss& l, double x, int neg, int pos) {
    vf_assert(out.size() == 2, "two products");
    product(out[0], neg, l, x * l.parent_particle_energy, "energy of the negative particle of the pair");
    product(out[1], pos, l, (1 - x) * l.parent_particle_energy, "energy of the positive particle of the pair");
    vf_assert_eq_tol(out[0].energy + out[1].energy, l.parent_particle_energy, "the pair takes the whole photon energy", 1e-9);
    for (auto& s : out) vf_assert_eq(s.propagated_distance, 0, "products have not moved yet");
}
template <class T> static void forward(T& b) {
    auto l = any_loss(InteractionType::Photopair, 2, 1e5);
    auto c = any_component();
    b.dndx = tables();
    auto r = any_random(4);
    double E = l.parent_particle_energy;
    vf_assume(E > 2 * ME); vf_assume(std::cos(ME / E) > -1); // holds since 0 < ME/E < 1/2
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    photon_pair(out, l, sampled(E, r[0]), 11, -11);
    leaves(out[0], l, 0, std::cos(ME / E), 2 * PI * r[1], "angle of the electron");
    leaves(out[1], l, 1, std::cos(ME / E), 2 * PI * r[1] + PI, "angle of the positron");
    vf_assert(b.RequiredRandomNumbers() == 4, "needs four random numbers");
    vf_assert(b.GetInteractionType() == InteractionType::Photopair, "belongs to pair production by photons");
    c.hash = 3;
    bool thrown = false;
    try { b.CalculateSecondaries(l, c, r); } catch (const std::out_of_range&) { thrown = true; }
    vf_assert(thrown, "a target without table is rejected");
    b.dndx = nullptr;
    thrown = false;
    try { b.CalculateSecondaries(l, c, r); } catch (const std::logic_error&) { thrown = true; }
    vf_assert(thrown, "sampling without tables is rejected");
}
VF_CONTRACT(photon_pair_koch_motz) { PhotoPairProductionKochMotzForwardPeaked b; forward(b); }
VF_CONTRACT(photon_pair_tsai_forward) { PhotoPairProductionTsaiForwardPeaked b; forward(b); }
// Sauter distribution (EGS5 eq. 2.157)
template <class T> static void sauter(T& b) {
    auto l = any_loss(InteractionType::Photopair, 2, 1e5);
    auto c = any_component();
    b.dndx = tables();
    auto r = any_random(4);
    double E = l.parent_particle_energy, x = sampled(E, r[0]);
    vf_assume(x * E > ME); vf_assume((1 - x) * E > ME);
    auto ca = [](double e, double u) { double be = std::sqrt(sq(e) - sq(ME)) / e; return (2 * u - 1 + be) / (be * (2 * u - 1) + 1); };
    vf_assume(r[2] > 0); vf_assume(r[3] > 0);
    double c0 = ca(x * E, r[2]), c1 = ca((1 - x) * E, r[3]);
    vf_assume(c0 > -1); vf_assume(c1 > -1);
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    photon_pair(out, l, x, 11, -11);
    leaves(out[0], l, 0, c0, 2 * PI * r[1], "angle of the electron");
    leaves(out[1], l, 1, c1, 2 * PI * r[1] + PI, "angle of the positron");
}
VF_CONTRACT(photon_pair_koch_motz_sauter) { PhotoPairProductionKochMotzSauter b; sauter(b); }
VF_CONTRACT(photon_pair_tsai_sauter) { PhotoPairProductionTsaiSauter b; sauter(b); }
VF_CONTRACT(photon_muon_pair) {
    auto l = any_loss(InteractionType::PhotoMuPair, 300, 1e6);
    auto c = any_component();
    PhotoMuPairProductionBurkhardtKelnerKokoulin b;
    b.dndx = tables();
    auto r = any_random(2);
    double E = l.parent_particle_energy;
    vf_assume(E > 2 * MMU); vf_assume(std::cos(MMU / E) > -1); // holds since 0 < MMU/E < 1/2
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    photon_pair(out, l, 1 - sampled(E, r[0]), 13, -13);
    leaves(out[0], l, 0, std::cos(MMU / E), 2 * PI * r[1], "angle of the negative muon");
    leaves(out[1], l, 1, std::cos(MMU / E), 2 * PI * r[1] + PI, "angle of the positive muon");
    vf_assert(b.RequiredRandomNumbers() == 2, "needs two random numbers");
    vf_assert(b.GetInteractionType() == InteractionType::PhotoMuPair, "belongs to muon pair production by photons");
}
// Tsai (3.5): differential cross section in the emission angle
static double tsai(double k, double x, double th, double Z) {
    double E = k * x, l = sq(E * th / ME), tm = sq(ME) * (1 + l) / (2 * k * x * (1 - x)), z = sq(Z / 137), f = 1.202 * z - 1.0369 * sq(z) + 1.008 * cube(z) / (1 + z), X;
    if (Z < 2.5) {
        double eta = Z < 1.5 ? 1 : 1.6875, de = sq(ME) / (2 * k * x * (1 - x)), B = 2 * ALPHA * ME * eta / tm, b = 1 + sq(B), L = 2 * std::log(ME / de) - std::log(b);
        X = sq(Z) * (L + 1. / 6 - 4. / 3 / b + 1. / 6 / sq(b)) + Z * (L + 11. / 6 - 4 / sq(B) * std::log(b) + 4. / 3 / b - 1. / 6 / sq(b));
    } else {
        double Z3 = std::pow(Z, -1. / 3), a = (Z < 3.5 ? 100. : Z < 4.5 ? 106. : 111.7) * Z3 / ME, ap = (Z < 3.5 ? 418.6 : Z < 4.5 ? 571.4 : 724.2) * Z3 * Z3 / ME;
        auto lg = [&](double q) { return std::log(sq(q * ME * (1 + l)) / (sq(q * tm) + 1)) - 1; };
        X = sq(Z) * lg(a) + Z * lg(ap);
    }
    double o = 1 / sq(1 + l);
    return std::sin(th) * (sq(Z) + Z) * (2 * x * (1 - x) * o - 12 * l * x * (1 - x) * o * o) + std::sin(th) * (X - 2 * sq(Z) * f) * ((2 * x * x - 2 * x + 1) * o + 4 * l * x * (1 - x) * o * o);
}
VF_CONTRACT(tsai_angles) {
    PhotoPairProductionTsai b;
    auto c = any_component();
    static const double Zs[][2] = {{1, 1.5}, {1.5, 2.5}, {2.5, 3.5}, {3.5, 4.5}, {4.5, 95}};
    int k = vf_choose("element", 5);
    vf_assume(c.nucCharge_ > Zs[k][0] || (k == 0 && c.nucCharge_ >= 1)); vf_assume(c.nucCharge_ < Zs[k][1]);
    double E = vf_real("E", 2, 1e4), x = vf_real("x", 0.05, 0.95), th = vf_real("theta", 0, 3.1);
    vf_assume(E > 0); vf_assume(x > 0); vf_assume(x < 1); vf_assume(th >= 0); vf_assume(th <= PI);
    vf_cover("reached");
    vf_assert_eq(b.FunctionToIntegral(E, x, th, c), tsai(E, x, th, c.nucCharge_), "angular distribution of Tsai");
}
VF_CONTRACT(photon_pair_tsai) {
    auto l = any_loss(InteractionType::Photopair, 2, 1e5);
    auto c = any_component();
    vf_assume(c.nucCharge_ > 4.5);
    PhotoPairProductionTsai b;
    b.dndx = tables();
    auto r = any_random(4);
    double E = l.parent_particle_energy, x = sampled(E, r[0]);
    vf_assume(x > 0.01); vf_assume(x < 0.99);
    int high = vf_choose("high", 2);
    vf_assume(high ? std::log10(E) > 1 : std::log10(E) < 1);
    double s = high ? std::log10(E) : 1;
    g_ints = 0; g_positive = 1; g_x = vf_real("t_g", 0, 1); vf_assume(g_x > 0);
    double up = std::pow(PI, 1 / s), t0 = upper(0, up, r[1]), t1 = upper(0, up, r[2]);
    if (vf_symbolic()) { vf_assume(t0 > 0); vf_assume(t1 > 0); vf_assume(t0 < up); vf_assume(t1 < up); vf_assume(std::cos(std::pow(t0, s)) > -1); vf_assume(std::cos(std::pow(t1, s)) > -1); }
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    photon_pair(out, l, x, 11, -11);
    if (vf_symbolic()) {
        vf_assert(g_ints == 2, "both angles are sampled");
        for (int i = 0; i < 2; i++) {
            vf_assert_eq(g_lo[i], 0, "smallest angle"); vf_assert_eq(std::pow(g_hi[i], s), PI, "largest angle"); vf_assert_eq(g_rnd[i], r[1 + i], "random number of the angle");
            vf_assert_eq(g_f[i], s * std::pow(g_x, s - 1) * tsai(E, x, std::pow(g_x, s), c.nucCharge_), "the angle follows the distribution of Tsai");
        }
        leaves(out[0], l, 0, std::cos(std::pow(t0, s)), 2 * PI * r[3], "angle of the electron");
        leaves(out[1], l, 1, std::cos(std::pow(t1, s)), 2 * PI * r[3] + PI, "angle of the positron");
    }
}
static Medium& vacuum() { static Medium& m = any_medium(); m.components_.clear(); return m; }
VF_CONTRACT(weak) {
    auto c = any_component();
    auto p = ParticleDef("p", 100, 100, -1, 1, HardComponentTables::EmptyTable, DecayTable(), 900001, 14);
    WeakCooperSarkarMertsch b(p, vacuum());
    b.dndx = tables();
    auto l = any_loss(InteractionType::WeakInt, 1e3, 1e7);
    auto r = any_random(1);
    auto out = b.CalculateSecondaries(l, c, r);
    vf_cover("reached");
    double E = l.parent_particle_energy, v = vf_uf3("limit", E, r[0] * vf_uf2("total", E, 1), 1);
    vf_assert(out.size() == 2, "two products");
    product(out[0], 14, l, (1 - v) * l.energy, "energy of the neutrino");
    product(out[1], (int)ParticleType::Hadron, l, v * l.energy, "energy of the hadrons");
    for (auto& s : out) { keeps(s, l); vf_assert_eq(s.propagated_distance, 0, "products have not moved yet"); }
    vf_assert_eq_tol(out[0].energy + out[1].energy, l.energy, "the whole energy goes to the products", 1e-9);
    vf_assert(b.RequiredRandomNumbers() == 1, "needs one random number");
    vf_assert(b.GetInteractionType() == InteractionType::WeakInt, "belongs to weak interaction");
}
