// VF-SOURCES: EnergyCutSettings.cxx Constants.cxx Logging.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx decay/DecayTable.cxx crosssection/CrossSection.cxx crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx crosssection/CrossSectionDEDX/CrossSectionDEDX.cxx crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.cxx crosssection/CrossSectionDE2DX/CrossSectionDE2DX.cxx crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx crosssection/parametrization/Bremsstrahlung.cxx crosssection/parametrization/EpairProduction.cxx crosssection/parametrization/MupairProduction.cxx crosssection/parametrization/Ionization.cxx crosssection/parametrization/PhotoQ2Integration.cxx crosssection/parametrization/PhotoRealPhotonAssumption.cxx crosssection/parametrization/Photonuclear.cxx crosssection/parametrization/PhotoPairProduction.cxx crosssection/parametrization/Photoproduction.cxx crosssection/parametrization/Photoeffect.cxx crosssection/parametrization/Annihilation.cxx crosssection/parametrization/ParamTables.cxx propagation_utility/Decay.cxx propagation_utility/ContRand.cxx math/InterpolantBuilder.cxx
// VF-IDEAL-HASH: std::hash of a number is an ideal hash: equal terms have the same, different terms different values (natively the real one runs)
// VF-REPLACE: ^PROPOSAL::Interpolant::(Interpolant|~Interpolant)\( => vfr_nothing
// VF-REPLACE: ^PROPOSAL::(Bremsstrahlung|crosssection::[A-Za-z]*)::FunctionToDEdxIntegral\( => vfr_loss
// VF-ASSUME: std::hash does not map two different numbers met in a contract to one value
#include "common.hpp"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/crosssection/CrossSectionMultiplier.h"
#include "PROPOSAL/crosssection/CrossSectionVector.h"
#include "PROPOSAL/crosssection/parametrization/Annihilation.h"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include "PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.h"
#include "PROPOSAL/crosssection/parametrization/Photoeffect.h"
#include "PROPOSAL/crosssection/parametrization/Photoproduction.h"
#include "PROPOSAL/math/InterpolantBuilder.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/propagation_utility/ContRand.h"
#include "PROPOSAL/propagation_utility/Decay.h"
#include "PROPOSAL/propagation_utility/Displacement.h"
#include <functional>
using namespace PROPOSAL;
using namespace PROPOSAL::crosssection;
extern "C" void vfr_nothing(void*) {}
extern "C" double vfr_loss(const void*, const ParticleDef&, const Component&, double E, double v) { return vf_uf2("loss", E, v); }

// two different positive numbers
static void two(const char* a, const char* b, double lo, double hi, double* x) {
    x[0] = vf_real(a, lo, hi); x[1] = vf_real(b, lo, hi);
    vf_assume(x[0] > lo); vf_assume(x[1] > lo); vf_assume(x[0] != x[1]);
}

// ---- cuts
VF_CONTRACT(cut_identity) {
    double e[2], v[2];
    two("e", "e2", 1, 1000, e); two("v", "v2", 0.01, 1, v);
    vf_assume(v[0] <= 1); vf_assume(v[1] <= 1);
    bool r = vf_bool("cont_rand");
    EnergyCutSettings a(e[0], v[0], r), b(e[0], v[0], r), c = a;
    vf_assert(a.GetHash() == b.GetHash(), "equal cuts have the same identity");
    vf_assert(a.GetHash() == c.GetHash(), "a copied cut has the same identity");
    vf_assert(a.GetHash() != EnergyCutSettings(e[1], v[0], r).GetHash(), "absolute cut is part of the identity");
    vf_assert(a.GetHash() != EnergyCutSettings(e[0], v[1], r).GetHash(), "relative cut is part of the identity");
    vf_assert(a.GetHash() != EnergyCutSettings(e[0], v[0], !r).GetHash(), "continuous randomization is part of the identity");
}
// ---- particles
VF_CONTRACT(particle_identity) {
    double m[2], low[2], life[2], z[2];
    two("m", "m2", 1, 1000, m); two("low", "low2", 1, 1000, low); two("life", "life2", 1e-3, 10, life); two("z", "z2", 0.5, 3, z);
    const auto& T = HardComponentTables::EmptyTable;
    auto make = [&](int i, int type) {
        return ParticleDef("p", m[i == 1], low[i == 2], life[i == 3], z[i == 4], i == 5 ? HardComponentTables::MuonTable : i == 6 ? HardComponentTables::TauTable : T, DecayTable(), type, i == 7 ? 12 : 0);
    };
    auto a = make(0, 900010);
    ParticleDef c = a;
    vf_assert(a.GetHash() == c.GetHash(), "a copied particle has the same identity");
    int i = 1 + vf_choose("other", 7);
    auto b = make(i, 900010 + i);
    vf_assert(a.GetHash() != b.GetHash(), "mass, low, lifetime, charge, photonuclear table and weak partner are part of the identity");
    if (i == 5) vf_assert(make(6, 900016).GetHash() != b.GetHash(), "the values of the photonuclear table are part of the identity");
}
VF_CONTRACT(predefined_particles) {
    ParticleDef::GetParticleDefForType(11);
    auto& map = *ParticleDef::Type_Particle_Map;
    for (auto& p : map) for (auto& q : map) {
        auto& a = p.second; auto& b = q.second;
        bool same = a.mass == b.mass && a.low == b.low && a.lifetime == b.lifetime && a.charge == b.charge && a.hard_component_table == b.hard_component_table && a.weak_partner == b.weak_partner;
        vf_assert((a.GetHash() == b.GetHash()) == same, "predefined particles of different properties have different identities");
    }
}
// ---- materials
VF_CONTRACT(component_identity) {
    double A[2], n[2];
    two("A", "A2", 4, 200, A); two("n", "n2", 0.5, 5, n);
    const double Z[] = {1, 8, 26, 100};
    int i = vf_choose("Z", 4), j = vf_choose("other Z", 4);
    vf_assume(i != j);
    Component a("a", Z[i], A[0], n[0]), b("a", Z[i], A[0], n[0]), c = a;
    vf_assert(a.GetHash() == b.GetHash(), "equal elements have the same identity");
    vf_assert(a.GetHash() == c.GetHash(), "a copied element has the same identity");
    vf_assert(a.GetHash() != Component("a", Z[j], A[0], n[0]).GetHash(), "charge is part of the identity");
    vf_assert(a.GetHash() != Component("a", Z[i], A[1], n[0]).GetHash(), "atomic number is part of the identity");
    vf_assert(a.GetHash() != Component("a", Z[i], A[0], n[1]).GetHash(), "number of atoms is part of the identity");
}
VF_CONTRACT(medium_identity) {
    static const char* names[] = {"I", "C", "a", "m", "X0", "X1", "d0", "rho"};
    static const char* others[] = {"I2", "C2", "a2", "m2", "X02", "X12", "d02", "rho2"};
    double x[8][2], A[2];
    for (int i = 0; i < 8; i++) two(names[i], others[i], 0.1, 10, x[i]);
    two("A", "A2", 4, 200, A);
    Component h("h", 1, 1.008, 2), o("o", 8, A[0], 1), f("f", 26, A[1], 1), o2("o", 8, A[1], 1);
    int k = vf_choose("differs", 12);
    auto make = [&](int d) {
        std::vector<Component> c{h, o};
        if (d == 8) c = {h}; else if (d == 9) c = {h, f}; else if (d == 10) c = {h, o2};
        auto v = [&](int i) { return x[i][d == i]; };
        return Medium("m", v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), c);
    };
    Medium a = make(-1), b = make(k), c = a;
    vf_assert(a.GetHash() == c.GetHash(), "a copied medium has the same identity");
    if (k == 11) vf_assert(a.GetHash() == b.GetHash(), "equal media have the same identity");
    else vf_assert(a.GetHash() != b.GetHash(), "ionization constants, density and composition are part of the identity");
}
// ---- parametrizations
struct Ids { size_t id[40]; int n = 0; };
static void distinct(const Ids& s, const char* what) {
    for (int i = 0; i < s.n; i++) for (int j = 0; j < i; j++) vf_assert(s.id[i] != s.id[j], what);
}
VF_CONTRACT(parametrization_identity) {
    auto p = any_particle(100, 150); auto& m = any_medium();
    auto cut = EnergyCutSettings(500, 0.05, false);
    const char* what = "parametrizations of a process have different identities";
    Ids b;
    for (int l = 0; l < 1; l++) {
        b.id[b.n++] = BremsPetrukhinShestakov(false).GetHash(); b.id[b.n++] = BremsKelnerKokoulinPetrukhin(false).GetHash();
        b.id[b.n++] = BremsCompleteScreening(false).GetHash(); b.id[b.n++] = BremsAndreevBezrukovBugaev(false).GetHash();
        b.id[b.n++] = BremsSandrockSoedingreksoRhode(false).GetHash(); b.id[b.n++] = BremsElectronScreening(false).GetHash();
    }
    distinct(b, what);
    Ids e;
    e.id[e.n++] = EpairKelnerKokoulinPetrukhin(false).GetHash(); e.id[e.n++] = EpairSandrockSoedingreksoRhode(false).GetHash(); e.id[e.n++] = EpairForElectronPositron(false).GetHash();
    distinct(e, what);
    Ids i;
    i.id[i.n++] = IonizBetheBlochRossi(cut).GetHash(); i.id[i.n++] = IonizBergerSeltzerBhabha(cut).GetHash(); i.id[i.n++] = IonizBergerSeltzerMoller(cut).GetHash();
    distinct(i, what);
    Ids g;
    g.id[g.n++] = PhotoPairTsai(false).GetHash(); g.id[g.n++] = PhotoPairKochMotz(false).GetHash();
    distinct(g, what);
    Ids r;
    for (int hard = 0; hard < 2; hard++) {
        r.id[r.n++] = PhotoZeus(hard).GetHash(); r.id[r.n++] = PhotoBezrukovBugaev(hard).GetHash();
        r.id[r.n++] = PhotoKokoulin(hard).GetHash(); r.id[r.n++] = PhotoRhode(hard).GetHash();
    }
    distinct(r, "parametrization and hard component are part of the identity");
    Ids d;
    d.id[d.n++] = PhotoproductionZeus().GetHash(p, m, nullptr); d.id[d.n++] = PhotoproductionBezrukovBugaev().GetHash(p, m, nullptr);
    d.id[d.n++] = PhotoproductionCaldwell().GetHash(p, m, nullptr); d.id[d.n++] = PhotoproductionKokoulin().GetHash(p, m, nullptr);
    d.id[d.n++] = PhotoproductionRhode().GetHash(p, m, nullptr); d.id[d.n++] = PhotoproductionHeck().GetHash(p, m, nullptr);
    d.id[d.n++] = PhotoproductionHeckC7Shadowing().GetHash(p, m, nullptr); d.id[d.n++] = PhotoeffectSauter().GetHash(p, m, nullptr);
    distinct(d, what);
}
VF_CONTRACT(nuclear_identity) {
    std::shared_ptr<ShadowEffect> s[] = {std::make_shared<ShadowDuttaRenoSarcevicSeckel>(), std::make_shared<ShadowButkevichMikheyev>()};
    Ids q;
    for (auto& x : s) {
        q.id[q.n++] = PhotoAbramowiczLevinLevyMaor91(x).GetHash(); q.id[q.n++] = PhotoAbramowiczLevinLevyMaor97(x).GetHash();
        q.id[q.n++] = PhotoButkevichMikheyev(x).GetHash(); q.id[q.n++] = PhotoRenoSarcevicSu(x).GetHash();
        q.id[q.n++] = PhotoAbtFT(x).GetHash(); q.id[q.n++] = PhotoBlockDurandHa(x).GetHash();
    }
    distinct(q, "parametrization and shadowing are part of the identity");
    PhotoAbtFT a(s[0]), b = a;
    vf_assert(a.GetHash() == PhotoAbtFT(s[0]).GetHash(), "equal parametrizations have the same identity");
    vf_assert(a.GetHash() == b.GetHash() && a.GetHash() == a.clone()->GetHash(), "a copied parametrization has the same identity");
}
template <class P> static void lpm_identity() {
    double dc[2];
    two("correction", "correction2", 0.1, 3, dc);
    auto p = any_particle(100, 150);
    Medium& m = any_medium();
    double rho = vf_real("other density", 0.2, 9);
    vf_assume(rho > 0); vf_assume(rho != m.massDensity_);
    P off(false, p, m, dc[0]), on(true, p, m, dc[0]), same(true, p, m, dc[0]), other(true, p, m, dc[1]);
    vf_assert(on.GetHash() == same.GetHash() && on.GetHash() == on.clone()->GetHash(), "equal parametrizations have the same identity");
    vf_assert(on.GetHash() != off.GetHash(), "LPM effect is part of the identity");
    vf_assert(on.GetHash() != other.GetHash(), "density correction is part of the identity");
    m.massDensity_ = rho;
    m.molDensity_ *= 2;
    P denser(true, p, m, dc[0]);
    vf_assert(on.GetHash() != denser.GetHash(), "medium of the LPM effect is part of the identity");
}
VF_CONTRACT(lpm_brems) { lpm_identity<BremsKelnerKokoulinPetrukhin>(); }
VF_CONTRACT(lpm_brems_screening) { lpm_identity<BremsElectronScreening>(); }
VF_CONTRACT(lpm_epair) { lpm_identity<EpairKelnerKokoulinPetrukhin>(); }
VF_CONTRACT(lpm_photopair) { lpm_identity<PhotoPairTsai>(); }
VF_CONTRACT(lpm_photopair_km) { lpm_identity<PhotoPairKochMotz>(); }
VF_CONTRACT(ionization_identity) {
    double e[2];
    two("e", "e2", 1, 1000, e);
    EnergyCutSettings a(e[0], 0.05, false), b(e[1], 0.05, false);
    vf_assert(IonizBetheBlochRossi(a).GetHash() == IonizBetheBlochRossi(a).GetHash(), "equal parametrizations have the same identity");
    vf_assert(IonizBetheBlochRossi(a).GetHash() != IonizBetheBlochRossi(b).GetHash(), "cut of the ionization is part of the identity");
}
VF_CONTRACT(annihilation_identity) {
    double m[2];
    two("m", "m2", 0.1, 200, m);
    Medium& t = any_medium();
    auto a = particle_of_mass(m[0], 1, 900020), b = particle_of_mass(m[1], 1, 900021);
    AnnihilationHeitler h;
    vf_assert(h.GetHash(a, t, nullptr) != h.GetHash(b, t, nullptr), "particle is part of the identity of the annihilation");
    auto one = h.GetHash(a, t, nullptr), ph = PhotoproductionZeus().GetHash(a, t, nullptr), pe = PhotoeffectSauter().GetHash(a, t, nullptr);
    double rho = vf_real("other density", 0.2, 9);
    vf_assume(rho > 0); vf_assume(rho != t.massDensity_);
    t.massDensity_ = rho;
    vf_assert(one != h.GetHash(a, t, nullptr) && ph != PhotoproductionZeus().GetHash(a, t, nullptr) && pe != PhotoeffectSauter().GetHash(a, t, nullptr), "medium is part of the identity of tabulated total cross sections");
}
// ---- cross sections
template <class T> struct Simple : public Parametrization<T> {
    explicit Simple(size_t h) { this->hash = h; }
    std::unique_ptr<Parametrization<T>> clone() const override { return std::make_unique<Simple>(*this); }
    double GetLowerEnergyLim(ParticleDef const& p) const noexcept override { return 2 * p.mass; }
    double DifferentialCrossSection(ParticleDef const&, T const&, double, double v) const override { return v; }
    KinematicLimits GetKinematicLimits(ParticleDef const&, T const&, double) const noexcept override { KinematicLimits l; l.v_min = 0.1; l.v_max = 0.9; return l; }
};
template <class T> struct Other : public Simple<T> {
    using Simple<T>::Simple;
    std::unique_ptr<Parametrization<T>> clone() const override { return std::make_unique<Other>(*this); }
};
namespace PROPOSAL { namespace crosssection {
template <class T> struct ParametrizationName<Simple<T>> { static constexpr auto value = "simple"; };
template <class T> struct ParametrizationName<Other<T>> { static constexpr auto value = "other"; };
template <class T> struct ParametrizationId<Simple<T>> { static constexpr size_t value = 1000000004; };
template <class T> struct ParametrizationId<Other<T>> { static constexpr size_t value = 1000000004; };
} }

static std::shared_ptr<EnergyCutSettings> cuts(double e, bool r = false) { return std::make_shared<EnergyCutSettings>(e, 0.05, r); }
VF_CONTRACT(cross_identity) {
    double e[2], m[2];
    two("e", "e2", 1, 1000, e); two("m", "m2", 100, 200, m);
    auto p = particle_of_mass(m[0], 1, 900030), p2 = particle_of_mass(m[1], 1, 900031);
    Medium& t = any_medium();
    Simple<Medium> a(5), b(6);
    auto id = [&](const Parametrization<Medium>& x, const char* name, unsigned k, const ParticleDef& q, std::shared_ptr<EnergyCutSettings> c) { return detail::generate_cross_hash(0, name, k, x, q, t, c); };
    auto one = id(a, "n", 1, p, cuts(e[0]));
    vf_assert(one == id(a, "n", 1, p, cuts(e[0])), "equal cross sections have the same identity");
    vf_assert(one != id(b, "n", 1, p, cuts(e[0])), "parametrization is part of the identity");
    vf_assert(one != id(a, "o", 1, p, cuts(e[0])), "name of the parametrization is part of the identity");
    vf_assert(one != id(a, "n", 2, p, cuts(e[0])), "process is part of the identity");
    vf_assert(one != id(a, "n", 1, p2, cuts(e[0])), "particle is part of the identity");
    vf_assert(one != id(a, "n", 1, p, cuts(e[1])), "cut is part of the identity");
    vf_assert(one != id(a, "n", 1, p, nullptr), "absence of a cut is part of the identity");
    double rho = vf_real("other density", 0.2, 9);
    vf_assume(rho > 0); vf_assume(rho != t.massDensity_);
    t.massDensity_ = rho;
    vf_assert(one != id(a, "n", 1, p, cuts(e[0])), "medium is part of the identity");
}
VF_CONTRACT(table_identity) {
    // tables of one cross section: for each component
    auto p = any_particle(100, 150);
    double A[2];
    two("A", "A2", 4, 200, A);
    Component a("a", 8, A[0], 1), b("a", 8, A[1], 1);
    Simple<Component> x(5);
    auto c = *cuts(500);
    size_t h = 7, k = 8;
    CrossSectionDEDXIntegral l(x, p, a, c, h), l2(x, p, b, c, h), l3(x, p, a, c, k), l4(x, p, a, c, h);
    vf_assert(l.GetHash() == l4.GetHash(), "equal tables have the same identity");
    vf_assert(l.GetHash() != l2.GetHash(), "component is part of the identity of the losses");
    vf_assert(l.GetHash() != l3.GetHash(), "cross section is part of the identity of the losses");
    CrossSectionDE2DXIntegral d(x, p, a, c, h), d2(x, p, b, c, h), d3(x, p, a, c, k);
    vf_assert(d.GetHash() != d2.GetHash(), "component is part of the identity of the second moment");
    vf_assert(d.GetHash() != d3.GetHash(), "cross section is part of the identity of the second moment");
    CrossSectionDNDXIntegral r(x, p, a, cuts(500), h), r2(x, p, b, cuts(500), h), r3(x, p, a, cuts(500), k);
    vf_assert(r.GetHash() != r2.GetHash(), "component is part of the identity of the rate");
    vf_assert(r.GetHash() != r3.GetHash(), "cross section is part of the identity of the rate");
}
// an arbitrary cross section of a given identity
struct Any : public CrossSectionBase {
    size_t h; bool r;
    Any(size_t x, bool y = true) : h(x), r(y) {}
    double CalculatedEdx(double) override { return 1; }
    double CalculatedE2dx(double) override { return 1; }
    double CalculatedNdx(double) override { return 1; }
    double CalculatedNdx(double, size_t) override { return 1; }
    double CalculateCumulativeCrosssection(double, size_t, double) override { return 1; }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double) override { return {}; }
    double CalculateStochasticLoss(size_t, double, double) override { return 1; }
    double GetLowerEnergyLim() const override { return 1; }
    size_t GetHash() const noexcept override { return h; }
    InteractionType GetInteractionType() const noexcept override { return InteractionType::Brems; }
    std::string GetParametrizationName() const noexcept override { return "any"; }
    std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return cuts(500, r); }
};
struct AnyDisplacement : public Displacement {
    using Displacement::Displacement;
    double SolveTrackIntegral(double, double) override { return 0; }
    double UpperLimitTrackIntegral(double, double) override { return 0; }
};
using list_t = std::vector<std::shared_ptr<CrossSectionBase>>;
VF_CONTRACT(multiplier_identity) {
    double f[2];
    two("f", "f2", 0.1, 10, f);
    auto x = std::make_shared<Any>(5), y = std::make_shared<Any>(6);
    CrossSectionMultiplier a(x, f[0]), b(x, f[1]), c(y, f[0]), d(x, f[0]);
    vf_assert(a.GetHash() == d.GetHash(), "equal cross sections have the same identity");
    vf_assert(a.GetHash() != b.GetHash(), "multiplier is part of the identity");
    vf_assert(a.GetHash() != x->GetHash(), "multiplier is part of the identity");
    vf_assert(a.GetHash() != c.GetHash(), "cross section is part of the identity");
}
VF_CONTRACT(utility_identity) {
    double f[2], life[2], m[2];
    two("f", "f2", 0.1, 10, f); two("life", "life2", 1e-3, 10, life); two("m", "m2", 1, 100, m);
    auto x = std::make_shared<Any>(5), y = std::make_shared<Any>(6);
    list_t one{x, std::make_shared<CrossSectionMultiplier>(y, f[0])}, two_{x, std::make_shared<CrossSectionMultiplier>(y, f[1])}, less{x};
    auto a = std::make_shared<AnyDisplacement>(one), b = std::make_shared<AnyDisplacement>(two_), c = std::make_shared<AnyDisplacement>(less), s = std::make_shared<AnyDisplacement>(one);
    vf_assert(a->GetHash() == s->GetHash(), "equal lists of cross sections have the same identity");
    vf_assert(a->GetHash() != b->GetHash(), "each cross section is part of the identity of a list");
    vf_assert(a->GetHash() != c->GetHash(), "number of cross sections is part of the identity of a list");
    struct D : public Decay { using Decay::Decay; double EnergyDecay(double, double, double) override { return 0; } };
    auto id = D(a, life[0], m[0]).GetHash();
    vf_assert(id == D(s, life[0], m[0]).GetHash(), "equal decay utilities have the same identity");
    vf_assert(id != D(b, life[0], m[0]).GetHash(), "cross sections are part of the identity of the decay utility");
    vf_assert(id != D(a, life[1], m[0]).GetHash(), "lifetime is part of the identity of the decay utility");
    vf_assert(id != D(a, life[0], m[1]).GetHash(), "mass is part of the identity of the decay utility");
    struct R : public ContRand { using ContRand::ContRand; double Variance(double, double) override { return 0; } double EnergyRandomize(double, double, double, double) override { return 0; } };
    auto ir = R(a, one).GetHash();
    vf_assert(ir == R(s, one).GetHash(), "equal randomization utilities have the same identity");
    vf_assert(ir != R(b, two_).GetHash(), "cross sections are part of the identity of the randomization utility");
}
VF_CONTRACT(table_definition_identity) {
    double x[2], y[2];
    two("x", "x2", 1, 10, x); two("y", "y2", 20, 30, y);
    auto make = [&](int i) {
        Interpolant2DBuilder::Definition d;
        d.nodes = i == 0 ? 50 : 60; d.romberg = i == 1 ? 4 : 3; d.rombergY = i == 2 ? 4 : 3; d.logSubst = i == 3; d.isLog = i == 4;
        d.rational = i == 5; d.rationalY = i == 6; d.relative = i == 7; d.relativeY = i == 8; d.xmin = x[i == 9]; d.xmax = y[i == 10];
        d.nodes2 = i == 11 ? 50 : 60; d.romberg2 = i == 12 ? 4 : 3; d.isLog2 = i == 13; d.rational2 = i == 14; d.relative2 = i == 15; d.x2min = x[i == 16]; d.x2max = y[i == 17];
        return d;
    };
    auto a = make(-1), b = make(-1);
    vf_assert(a.GetHash() == b.GetHash(), "equal table definitions have the same identity");
    int i = vf_choose("differs", 18);
    auto c = make(i);
    vf_assert(a.GetHash() != c.GetHash(), "each setting of a table is part of its identity");
    if (i < 11) vf_assert(static_cast<Interpolant1DBuilder::Definition&>(a).GetHash() != static_cast<Interpolant1DBuilder::Definition&>(c).GetHash(), "each setting of a one-dimensional table is part of its identity");
}
