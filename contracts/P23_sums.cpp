// VF-SOURCES: crosssection/CrossSection.cxx crosssection/CrossSectionDNDX/CrossSectionDNDXInterpolant.cxx crosssection/CrossSectionDNDX/AxisBuilderDNDX.cxx crosssection/CrossSectionDEDX/CrossSectionDEDXInterpolant.cxx crosssection/CrossSectionDEDX/AxisBuilderDEDX.cxx crosssection/CrossSectionDE2DX/CrossSectionDE2DXInterpolant.cxx crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx methods.cxx particle/Particle.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.cxx crosssection/CrossSectionDEDX/CrossSectionDEDX.cxx crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.cxx crosssection/CrossSectionDE2DX/CrossSectionDE2DX.cxx crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.cxx crosssection/parametrization/Compton.cxx crosssection/parametrization/Ionization.cxx crosssection/parametrization/EpairProduction.cxx crosssection/parametrization/MupairProduction.cxx crosssection/parametrization/Photonuclear.cxx crosssection/parametrization/PhotoPairProduction.cxx crosssection/parametrization/ParamTables.cxx math/Integral.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx Logging.cxx EnergyCutSettings.cxx
// VF-BOUNDED: [in=sum_.*|sampled_element] media of one and two components
// VF-REPLACE: ^PROPOSAL::Integral::IntegrateWithRandomRatio\( => vfr_ratio
// VF-REPLACE: ^PROPOSAL::Integral::GetUpperLimit\(\) => vfr_upper
// VF-REPLACE: ^PROPOSAL::(Medium|ParticleDef|EnergyCutSettings)::GetHash\(\) const => vfr_hash
// VF-ASSUME: Integral::IntegrateWithRandomRatio and GetUpperLimit are represented by the contract proved in P09; differential cross sections and kinematic limits are arbitrary functions of energy, loss and target; media of one and two components
#include "common.hpp"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include <functional>
using namespace PROPOSAL;
using namespace PROPOSAL::crosssection;

static double dsigma(double E, double v, double k) { return vf_symbolic() ? vf_uf3("dsigma", E, v, k) : (1 + std::sin(3 * v + k) * 0.5) / (0.1 + v); }
static KinematicLimits limits(double E, double k) {
    KinematicLimits l;
    if (vf_symbolic()) { l.v_min = vf_uf2("vmin", E, k); l.v_max = vf_uf2("vmax", E, k); }
    else { l.v_min = 0.01 + 0.02 * k * (1 + std::sin(E)); l.v_max = 0.8 + 0.05 * k; }
    vf_assume(0 < l.v_min); vf_assume(l.v_min < l.v_max); vf_assume(l.v_max < 1);
    return l;
}
static double tag(const Component& c) { return c.GetNucCharge(); }
static double tag(const Medium&) { return 3; }
template <class T> struct Any : public Parametrization<T> {
    std::unique_ptr<Parametrization<T>> clone() const override { return std::make_unique<Any>(*this); }
    double DifferentialCrossSection(ParticleDef const&, T const& t, double E, double v) const override { return dsigma(E, v, tag(t)); }
    double GetLowerEnergyLim(ParticleDef const& p) const noexcept override { return 2 * p.mass; }
    KinematicLimits GetKinematicLimits(ParticleDef const&, T const& t, double E) const noexcept override { return limits(E, tag(t)); }
};
namespace PROPOSAL { namespace crosssection {
template <> struct ParametrizationId<Any<Component>> { static constexpr size_t value = 1000000002; };
template <> struct ParametrizationId<Any<Medium>> { static constexpr size_t value = 1000000003; };
} }
// contract of the inversion of an integral (P09)
static double a_, b_, rate_;
static std::function<double(double)> f_;
extern "C" double vfr_ratio(Integral*, double a, double b, const std::function<double(double)>* f, int, double ratio, double) { a_ = a; b_ = b; rate_ = -ratio; f_ = *f; return 0; }
extern "C" double vfr_upper(Integral*) {
    double x = vf_real("X", 0, 1);
    vf_assume(a_ <= x); vf_assume(x <= b_); vf_assume(vf_integral(a_, x, f_) == rate_);
    return x;
}
extern "C" size_t vfr_hash(const void*) { return 77; }
static Component element(int i) {
    static const char* N[2][2] = { { "A1", "n1" }, { "A2", "n2" } };
    Component c;
    c.name_ = "el";
    c.nucCharge_ = i + 1;
    c.atomicNum_ = vf_real(N[i][0], 1, 238);
    c.atomInMolecule_ = vf_real(N[i][1], 1, 4);
    c.hash = 11 + i;
    vf_assume(c.atomicNum_ > 0); vf_assume(c.atomInMolecule_ > 0);
    return c;
}
static Medium composed(int n, double* w) {
    Medium m = any_medium();
    m.components_.clear();
    double sum = 0;
    for (int i = 0; i < n; i++) { m.components_.push_back(element(i)); sum += m.components_[i].atomInMolecule_ * m.components_[i].atomicNum_; }
    m.numComponents_ = n; m.sumNucleons_ = sum;
    // fraction of the nucleons that belong to the element
    for (int i = 0; i < n; i++) w[i] = m.components_[i].atomInMolecule_ * m.components_[i].atomicNum_ / sum;
    return m;
}
static double energy(const ParticleDef& p) { double x = vf_real("boost", 20, 1000); vf_assume(x > 0); return x * p.mass; }
static double threshold(const KinematicLimits& l, const EnergyCutSettings* c, double E) {
    if (!c) return l.v_min;
    return std::min(std::max(l.v_min, std::min(c->GetEcut() / E, c->GetVcut())), l.v_max);
}
static std::shared_ptr<const EnergyCutSettings> any_cut(bool random) {
    double e = vf_real("ecut", 10, 2e4), v = vf_real("vcut", 0.05, 0.5);
    vf_assume(e > 0); vf_assume(e < 1e12); vf_assume(v > 0); vf_assume(v < 1);
    return std::make_shared<const EnergyCutSettings>(e, v, random);
}
static void components(int n, bool cut) {
    auto p = any_particle();
    double w[2];
    Medium m = composed(n, w);
    auto c = cut ? any_cut(true) : nullptr;
    double E = energy(p);
    CrossSection<std::true_type, std::false_type> cross(Any<Component>(), p, m, c, false);
    double all = 0, dedx = 0, de2dx = 0, v = vf_real("v", 0.5, 0.8);
    for (int i = 0; i < n; i++) {
        double k = i + 1;
        auto l = limits(E, k);
        double lo = threshold(l, c.get(), E);
        vf_assume(lo < v); vf_assume(v < l.v_max);
        auto f = [=](double x) { return dsigma(E, x, k); };
        double total = vf_integral(lo, l.v_max, f), rate = w[i] * total;
        size_t h = 11 + i;
        vf_assert_eq_tol(cross.CalculatedNdx(E, h), rate, "rate on an element is weighted with its share of the medium", 1e-3);
        vf_assert_eq_tol(cross.CalculateCumulativeCrosssection(E, h, v), w[i] * vf_integral(lo, v, f), "rate up to a loss is weighted with the share", 1e-3);
        all += rate;
        dedx += w[i] * E * vf_integral(l.v_min, lo, [=](double x) { return x * dsigma(E, x, k); });
        de2dx += w[i] * E * E * vf_integral(l.v_min, lo, [=](double x) { return x * x * dsigma(E, x, k); });
    }
    vf_assert_eq_tol(cross.CalculatedNdx(E), all, "rate is the sum over the elements", 1e-3);
    if (!cut) { dedx = 0; de2dx = 0; }
    vf_assert_eq_tol(1 + cross.CalculatedEdx(E), 1 + dedx, "continuous loss is the weighted sum over the elements", 1e-3);
    vf_assert_eq_tol(1 + cross.CalculatedE2dx(E), 1 + de2dx, "second moment is the weighted sum over the elements", 1e-3);
    auto per = cross.CalculatedNdx_PerTarget(E);
    vf_assert((int)per.size() == n, "one rate per element");
    double sum = 0;
    for (auto& x : per) { vf_assert_eq(x.second, cross.CalculatedNdx(E, x.first), "the rate of that element"); sum += x.second; }
    vf_assert_eq_tol(sum, all, "they add up to the rate", 1e-3);
    vf_assert_eq(cross.GetLowerEnergyLim(), 2 * p.mass, "lowest energy");
    vf_assert(cross.GetEnergyCutSettings() == c && cross.GetInteractionType() == InteractionType::Brems, "settings are kept");
}
VF_CONTRACT(sum_one_element) { components(1, true); }
VF_CONTRACT(sum_two_elements) { components(2, true); }
VF_CONTRACT(sum_two_elements_nocut) { components(2, false); }
VF_CONTRACT(sum_medium) {
    auto p = any_particle();
    double w[2];
    Medium m = composed(1, w);
    bool random = vf_choose("random", 2);
    auto c = any_cut(random);
    double E = energy(p);
    CrossSection<std::false_type, std::false_type> cross(Any<Medium>(), p, m, c, false);
    auto l = limits(E, 3);
    double lo = threshold(l, c.get(), E);
    auto f = [=](double x) { return dsigma(E, x, 3); };
    vf_assume(lo < l.v_max);
    vf_assert_eq_tol(cross.CalculatedNdx(E), vf_integral(lo, l.v_max, f), "rate on the medium", 1e-3);
    vf_assert_eq_tol(cross.CalculatedNdx(E, m.GetHash()), vf_integral(lo, l.v_max, f), "rate on the medium", 1e-3);
    vf_assert_eq_tol(1 + cross.CalculatedEdx(E), 1 + E * vf_integral(l.v_min, lo, [=](double x) { return x * dsigma(E, x, 3); }), "continuous loss in the medium", 1e-3);
    vf_assert_eq_tol(1 + cross.CalculatedE2dx(E), 1 + (random ? E * E * vf_integral(l.v_min, lo, [=](double x) { return x * x * dsigma(E, x, 3); }) : 0), "second moment only with continuous randomization", 1e-3);
}
VF_CONTRACT(sampled_element) {
    auto p = any_particle();
    double w[2];
    Medium m = composed(2, w);
    auto c = any_cut(false);
    double E = energy(p);
    CrossSection<std::true_type, std::false_type> cross(Any<Component>(), p, m, c, false);
    int i = vf_choose("element", 2); double k = i + 1;
    auto l = limits(E, k);
    double lo = threshold(l, c.get(), E);
    vf_assume(lo < l.v_max);
    auto f = [=](double x) { return dsigma(E, x, k); };
    double u = vf_real("u", 0.02, 0.98), r = vf_symbolic() ? vf_uf1("rate", u) : u * w[i] * vf_integral(lo, l.v_max, f);
    vf_assume(r > 0);
    double v = cross.CalculateStochasticLoss(11 + i, E, r);
    vf_assert_eq_tol(w[i] * vf_integral(lo, v, f), r, "sampling inverts the weighted rate of the element", 1e-2);
    CrossSection<std::true_type, std::true_type> only(Any<Component>(), p, m, c, false);
    vf_assert_eq(only.CalculateStochasticLoss(11 + i, E, r), 1, "interactions that end a particle take all its energy");
}
VF_CONTRACT(only_continuous) {
    auto p = any_particle();
    double w[2];
    Medium m = composed(1, w);
    auto c = std::make_shared<const EnergyCutSettings>(INF, 1., false);
    double E = energy(p);
    CrossSection<std::true_type, std::false_type> cross(Any<Component>(), p, m, c, false);
    vf_assert_eq(cross.CalculatedNdx(E), 0, "no stochastic losses without a finite cut");
    vf_assert_eq(cross.CalculatedNdx(E, 11), 0, "no stochastic losses without a finite cut");
    vf_assert_eq(cross.CalculateCumulativeCrosssection(E, 11, 0.5), 0, "no stochastic losses without a finite cut");
    vf_assert(cross.CalculatedNdx_PerTarget(E).empty(), "no stochastic losses without a finite cut");
    auto l = limits(E, 1);
    vf_assert_eq_tol(cross.CalculatedEdx(E), E * vf_integral(l.v_min, l.v_max, [=](double x) { return x * dsigma(E, x, 1); }), "all losses are continuous", 1e-3);
    bool threw = false;
    try { cross.CalculateStochasticLoss(11, E, 1); } catch (const std::logic_error&) { threw = true; }
    vf_assert(threw, "asking for a stochastic loss is an error");
}
