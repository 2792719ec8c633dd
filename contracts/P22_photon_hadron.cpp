// VF-SOURCES: crosssection/parametrization/Photoproduction.cxx crosssection/parametrization/Annihilation.cxx crosssection/parametrization/Photoeffect.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::Interpolant::Interpolant\(std::vector => vfr_table_ctor
// VF-REPLACE: ^PROPOSAL::Interpolant::InterpolateArray\(double\) => vfr_table
// VF-REPLACE: ^PROPOSAL::Interpolant::~Interpolant\(\) => vfr_table_dtor
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/Photoproduction.h"
#include "PROPOSAL/crosssection/parametrization/Annihilation.h"
#include "PROPOSAL/crosssection/parametrization/Photoeffect.h"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/math/Interpolant.h"
#include <algorithm>
#include <memory>
using namespace PROPOSAL::crosssection;
extern "C" void vfr_table_ctor(double* self, const std::vector<double>& x, const std::vector<double>& y, int order, bool rational, bool relative) {
    double s = order + 100 * rational + 200 * relative;
    for (size_t i = 0; i < x.size(); i++) s += (1. + i) * x[i] + (2. + i) * y[i];
    self[0] = s;
}
extern "C" double vfr_table(double* self, double x) { return vf_uf2("table1", self[0], x); }
extern "C" void vfr_table_dtor(double*) {}

static double threshold(const Component& c) { return MPI + sq(MPI) / (2 * c.averageNucleonWeight_); }
static double energy() {
    double E = vf_symbolic() ? vf_real("E", 0, 1) : std::pow(10, vf_real("logE", 1.5, 9));
    vf_assume(E > 0);
    return E;
}
static double caldwell(double nu) { return 49.2 + 11.1 * std::log(nu) + 151.8 / std::sqrt(nu); }
static double bezrukov(double nu) { return 114.3 + 1.647 * sq(std::log(.0213 * nu)); }
VF_CONTRACT(photon_nucleon_zeus) {
    auto c = any_component(); double E = energy(), M = c.averageNucleonWeight_ / 1000;
    double want = E < threshold(c) ? 0 : 63.5 * std::pow(2 * M * E / 1000, .097) + 145 * std::pow(2 * M * E / 1000, -.5);
    vf_assert_eq(PhotoproductionZeus().PhotonNucleonCrossSection(E, c), want, "ZEUS fit");
}
VF_CONTRACT(photon_nucleon_bezrukov_bugaev) {
    auto c = any_component(); double E = energy();
    vf_assert_eq(PhotoproductionBezrukovBugaev().PhotonNucleonCrossSection(E, c), E < threshold(c) ? 0 : bezrukov(E / 1000), "Bezrukov-Bugaev fit");
}
VF_CONTRACT(photon_nucleon_caldwell) {
    auto c = any_component(); double E = energy();
    vf_assert_eq(PhotoproductionCaldwell().PhotonNucleonCrossSection(E, c), E < threshold(c) ? 0 : caldwell(E / 1000), "Caldwell fit");
}
VF_CONTRACT(photon_nucleon_kokoulin) {
    auto c = any_component(); double E = energy(), nu = E / 1000;
    double want = E < threshold(c) ? 0 : nu <= 17 ? 96.1 + 82 / std::sqrt(nu) : nu <= 200 ? bezrukov(nu) : caldwell(nu);
    vf_assert_eq(PhotoproductionKokoulin().PhotonNucleonCrossSection(E, c), want, "Kokoulin's combination");
}
static const std::vector<double> RHX = { 0, 0.1, 0.144544, 0.20893, 0.301995, 0.436516, 0.630957, 0.912011, 1.31826, 1.90546, 2.75423, 3.98107, 5.7544, 8.31764,
    12.0226, 17.378, 25.1189, 36.3078, 52.4807, 75.8577, 109.648, 158.489, 229.087, 331.131, 478.63, 691.831, 1000, 1445.44, 2089.3, 3019.95,
    4365.16, 6309.58, 9120.12, 13182.6, 19054.6, 27542.3, 39810.8, 57544, 83176.4, 120226, 173780, 251188, 363078, 524807, 758576, 1.09648e+06,
    1.58489e+06, 2.29086e+06, 3.3113e+06, 4.78628e+06, 6.91828e+06, 9.99996e+06 };
static const std::vector<double> RHY = { 0, 0.0666667, 0.0963626, 159.74, 508.103, 215.77, 236.403, 201.919, 151.381, 145.407, 132.096, 128.546, 125.046, 121.863,
    119.16, 117.022, 115.496, 114.607, 114.368, 114.786, 115.864, 117.606, 120.011, 123.08, 126.815, 131.214, 136.278, 142.007, 148.401, 155.46,
    163.185, 171.574, 180.628, 190.348, 200.732, 211.782, 223.497, 235.876, 248.921, 262.631, 277.006, 292.046, 307.751, 324.121, 341.157, 358.857,
    377.222, 396.253, 415.948, 436.309, 457.334, 479.025 };
VF_CONTRACT(photon_nucleon_rhode) {
    auto c = any_component(); double E = energy(), nu = E / 1000, tab;
    if (vf_symbolic()) { double s = 4; for (size_t i = 0; i < RHX.size(); i++) s += (1. + i) * RHX[i] + (2. + i) * RHY[i]; tab = vf_uf2("table1", s, nu); }
    else { Interpolant i(RHX, RHY, 4, false, false); tab = i.InterpolateArray(nu); }
    double want = E < threshold(c) ? 0 : nu <= .1 ? 0 : nu <= 200 ? std::max(tab, 0.) : caldwell(nu);
    vf_assert_eq(PhotoproductionRhode().PhotonNucleonCrossSection(E, c), want, "Rhode's table");
}
static double breit_wigner(double s, double E, double M, double G, double S) { return s / sq(E) * S * sq(G) * s / (sq(s - sq(M)) + sq(G) * s); }
static double rise(double E, double w) { return E < .152 ? 0 : E >= w + .152 ? 1 : (E - .152) / w; }
static double heck(double E, const Component& c) {
    double e = E / 1000, m = c.averageNucleonWeight_ / 1000, s = sq(m) + 2 * m * e;
    double k = std::sqrt(s) < 19.39 ? (73.7 * std::pow(s, .073) + 191.7 * std::pow(s, -.602)) * std::sqrt(1 - sq(1.0761) / s) : 59.3 * std::pow(s, .093) + 120.2 * std::pow(s, -.358);
    return k + breit_wigner(s, e, 1.231, .11, 31.125) * rise(e, .17) + breit_wigner(s, e, 1.515, .11, 25.567) * rise(e, .38) + breit_wigner(s, e, 1.680, .125, 17.508) * rise(e, .38);
}
VF_CONTRACT(photon_nucleon_heck) {
    auto c = any_component(); double E = energy();
    if (E < threshold(c)) { vf_assert_eq(PhotoproductionHeck().PhotonNucleonCrossSection(E, c), 0, "no pion production below threshold"); return; }
    vf_assert_eq(PhotoproductionHeck().PhotonNucleonCrossSection(E, c), heck(E, c), "Heck's continuum and resonances");
}
struct AnyPhoto : PhotoproductionZeus {
    double PhotonNucleonCrossSection(double E, const Component& c) override { return vf_uf2("sigma_photon", E, c.atomicNum_); }
};
static double shadow(const Component& c, double s) {
    if (c.nucCharge_ == 1) return 1;
    double x = .00282 * std::pow(c.atomicNum_, 1. / 3) * s;
    return 3 / cube(x) * (sq(x) / 2 - 1 + std::exp(-x) * (1 + x));
}
VF_CONTRACT(photon_atom) {
    auto c = any_component(); double E = energy();
    if (vf_choose("hydrogen", 2)) c.nucCharge_ = 1; else vf_assume(c.nucCharge_ != 1);
    double s = vf_uf2("sigma_photon", E, c.atomicNum_);
    AnyPhoto a; Photoproduction& f = a;
    double want = s == 0 ? 0 : c.atomicNum_ * s * (.75 * shadow(c, s) + .25);
    vf_assert_eq(f.PhotonAtomCrossSection(E, c), want, "three quarters of the cross section are shadowed");
}
// media of two arbitrary elements; rates per grammage, weighted with the composition
static Medium two(Component* c) {
    for (int i = 0; i < 2; i++) {
        c[i] = any_component(); c[i].hash = 100 + i; c[i].name_ = i ? "second" : "first";
        if (i) { c[i].nucCharge_ = vf_real("Z2", 2, 92); c[i].atomicNum_ = vf_real("A2", 2, 238); c[i].atomInMolecule_ = vf_real("n2", 1, 4); c[i].averageNucleonWeight_ = vf_real("M2", 900, 950);
            vf_assume(c[i].nucCharge_ >= 1); vf_assume(c[i].atomicNum_ >= 1); vf_assume(c[i].atomInMolecule_ > 0); vf_assume(c[i].averageNucleonWeight_ > 0); }
    }
    Medium& m = any_medium();
    m.components_.clear(); m.components_.push_back(c[0]); m.components_.push_back(c[1]); m.numComponents_ = 2;
    m.sumNucleons_ = c[0].atomInMolecule_ * c[0].atomicNum_ + c[1].atomInMolecule_ * c[1].atomicNum_;
    if (!Component::component_map) Component::component_map = std::make_unique<std::map<size_t, Component>>();
    for (int i = 0; i < 2; i++) { Component::component_map->erase(100 + i); Component::component_map->insert({ 100 + i, c[i] }); }
    return m;
}
VF_CONTRACT(photoproduction_rate) {
    Component c[2]; Medium m = two(c); auto p = particle_of_mass(0, 0); double E = energy(), sum = 0;
    AnyPhoto a; Photoproduction& f = a;
    auto per = f.CalculatedNdx_PerTarget(E, p, m, nullptr);
    vf_assert(per.size() == 2, "one rate per component");
    for (int i = 0; i < 2; i++) {
        double want = NA / m.sumNucleons_ * c[i].atomInMolecule_ * 1e-30 * f.PhotonAtomCrossSection(E, c[i]);
        vf_assert(per[i].first == c[i].hash, "rates carry the hash of their component");
        vf_assert_eq(per[i].second, want, "rate of a component");
        vf_assert_eq(f.CalculatedNdx(E, c[i].hash, p, m, nullptr), want, "rate of a single component");
        sum += want;
    }
    vf_assert_eq(f.CalculatedNdx(E, p, m, nullptr), sum, "total rate");
    vf_assert_eq(f.GetLowerEnergyLim(p, m, nullptr), std::min(threshold(c[0]), threshold(c[1])), "lowest threshold of the components");
}
VF_CONTRACT(heck_c7_shadowing) {
    auto c = any_component(); double E = energy();
    PhotoproductionHeckC7Shadowing a; Photoproduction& f = a;
    double s = a.PhotonNucleonCrossSection(E, c);
    if (s == 0) vf_assert_eq(f.PhotonAtomCrossSection(E, c), 0, "no cross section"); else
    vf_assert_eq(f.PhotonAtomCrossSection(E, c), s * std::pow(c.atomicNum_, .91), "simplified shadowing");
}
// Heitler: annihilation with electrons at rest
static double heitler(double g) {
    return PI * sq(RE) / (g + 1) * ((sq(g) + 4 * g + 1) / (sq(g) - 1) * std::log(g + std::sqrt(sq(g) - 1)) - (g + 3) / std::sqrt(sq(g) - 1));
}
VF_CONTRACT(annihilation_heitler) {
    Component c[2]; Medium m = two(c); auto p = particle_of_mass(ME, -1, 5300); double E = vf_symbolic() ? vf_real("E", 0, 1) : ME * (1 + std::pow(10, vf_real("logT", -2, 8))), sum = 0;
    vf_assume(E > 0);
    AnnihilationHeitler f;
    auto per = f.CalculatedNdx_PerTarget(E, p, m, nullptr);
    vf_assert(per.size() == 2, "one rate per component");
    for (int i = 0; i < 2; i++) {
        double want = E <= ME ? 0 : NA / m.sumNucleons_ * c[i].atomInMolecule_ * c[i].nucCharge_ * heitler(E / ME);
        vf_assert(per[i].first == c[i].hash, "rates carry the hash of their component");
        vf_assert_eq(per[i].second, want, "rate of a component");
        sum += want;
    }
    vf_assert_eq(f.CalculatedNdx(E, p, m, nullptr), sum, "total rate");
    vf_assert_eq(f.GetLowerEnergyLim(p, m, nullptr), ME, "possible down to rest");
}
// Sauter's K shell cross section with Stobbe's correction and the ratio of all shells to the K shell (Hubbell)
static double sauter(double E, double Z) {
    double I = sq(Z * ALPHA) * ME / 2, g = 1 + (E - I) / ME, gb = std::sqrt(sq(g) - 1), xi = Z * ALPHA * g / gb;
    double s = 1.5 * (8 * PI * sq(RE) / 3) * std::pow(Z, 5) * sq(sq(ALPHA)) * std::pow(ME / E, 5) * cube(gb) * (4. / 3 + g * (g - 2) / (g + 1) * (1 - 1 / (g * gb) * std::log(g + gb)));
    double n = PI * xi < 10 ? (1 + sq(xi)) * PI * xi / std::sinh(PI * xi) * std::exp(xi * (PI - 4 * std::atan(1 / xi))) : (1 + sq(xi)) * 2 * PI * xi * std::exp(-4 * xi * std::atan(1 / xi));
    return s * n;
}
static double shells(double Z) { double l = std::log(Z); return 1 + .01481 * sq(l) - .000788 * cube(l); }
VF_CONTRACT(photoeffect_sauter) {
    auto c = any_component(); double Z = c.nucCharge_, I = sq(Z * ALPHA) * ME / 2;
    double E = vf_symbolic() ? vf_real("E", 0, 1) : I * (1 + std::pow(10, vf_real("logr", -2, 5)));
    vf_assume(E > I);
    PhotoeffectSauter f;
    vf_assert_eq_tol(f.PhotoeffectKshellCrossSection(E, c), sauter(E, Z), "K shell cross section", 1e-3);
    double k = f.PhotoeffectKshellCrossSection(E, c);
    if (k == 0) vf_assert_eq(f.PhotonAtomCrossSection(E, c), 0, "no cross section");
    else vf_assert_eq(f.PhotonAtomCrossSection(E, c), k * shells(Z), "all shells");
}
VF_CONTRACT(photoeffect_rate) {
    Component c[2]; Medium m = two(c); auto p = particle_of_mass(0, 0); double E = vf_symbolic() ? vf_real("E", 0, 1) : std::pow(10, vf_real("logE", -5, 2)), sum = 0;
    vf_assume(E > 0);
    PhotoeffectSauter f;
    auto per = f.CalculatedNdx_PerTarget(E, p, m, nullptr);
    vf_assert(per.size() == 2, "one rate per component");
    for (int i = 0; i < 2; i++) {
        double I = sq(c[i].nucCharge_ * ALPHA) * ME / 2;
        double want = E > I ? NA / m.sumNucleons_ * c[i].atomInMolecule_ * f.PhotonAtomCrossSection(E, c[i]) : 0;
        vf_assert(per[i].first == c[i].hash, "rates carry the hash of their component");
        vf_assert_eq(per[i].second, want, "rate of a component");
        vf_assert_eq(f.CalculatedNdx(E, c[i].hash, p, m, nullptr), want, "rate of a single component");
        sum += want;
    }
    vf_assert_eq(f.CalculatedNdx(E, p, m, nullptr), sum, "total rate");
    vf_assert_eq(f.GetLowerEnergyLim(p, m, nullptr), std::min(sq(c[0].nucCharge_ * ALPHA) * ME / 2, sq(c[1].nucCharge_ * ALPHA) * ME / 2), "lowest K shell energy of the components");
}
