seed('P02-passed-is-leaving', 'P02', [('geometry/Geometry.cxx', "    if (dist_forward.first == -1 && dist_forward.second == -1) {\n        if (dist_backward.first >= 0 && dist_backward.second == -1) {", "    if (dist_forward.first == -1 && dist_forward.second == -1) {\n        if (dist_backward.first >= 0) {")],
 'a particle well behind the geometry, moving away from it', 'it is reported as just leaving',
 r"""#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/geometry/Box.h"
using namespace PROPOSAL;
int main() { Sphere s(Cartesian3D(0, 0, 0), 10, 0); Box b(Cartesian3D(0, 0, 0), 2, 2, 2); Cartesian3D d(1, 0, 0);
 for (const Geometry* g : {(const Geometry*)&s, (const Geometry*)&b}) { check(!g->IsLeaving(Cartesian3D(50, 0, 0), d), "behind, not leaving"); check(!g->IsEntering(Cartesian3D(50, 0, 0), d), "behind, not entering"); check(!g->IsLeaving(Cartesian3D(-50, 0, 0), d), "in front, not leaving"); }
 check(s.IsLeaving(Cartesian3D(10, 0, 0), d), "leaving at the border"); return bad; }""")
seed('P05-scale-sign', 'P05', [('density_distr/density_exponential.cxx', "    return axis_->GetEffectiveDistance(xi, direction) / sigma_;", "    return axis_->GetEffectiveDistance(xi, direction) / std::abs(sigma_);")],
 'a profile whose density falls along the axis (negative scale)', 'the grammage of a path is not the integral of the density',
 r"""#include "PROPOSAL/density_distr/density_exponential.h"
using namespace PROPOSAL;
int main() { CartesianAxis ax(Cartesian3D(0, 0, 1), Cartesian3D(0, 0, 0)); for (double sg : {50., -50.}) { Density_exponential e(ax, sg, 3, 1.5); Cartesian3D x(1, 2, 10), d(0, 0.6, 0.8); double L = 30, s = 0; int n = 20000; for (int i = 0; i < n; i++) s += e.Evaluate(x + d * ((i + .5) * L / n)) * L / n;
 near(e.Calculate(x, d, L), s, "grammage", 1e-6); near(e.Correct(x, d, s, L), L, "distance of the grammage", 1e-6); } return bad; }""")
seed('P06-spline-spacing', 'P06', [('math/Spline.cxx', "        z[i] = (alpha[i] - h[i - 1] * z[i - 1]) / l[i];", "        z[i] = (alpha[i] - h[i] * z[i - 1]) / l[i];")],
 'a cubic spline through four or more points that are not equally spaced', 'the spline is no longer smooth at its nodes',
 r"""#include "PROPOSAL/math/Spline.h"
using namespace PROPOSAL;
int main() { std::vector<double> x{0, 1, 3, 4.5, 9}, y{1, 4, 2, 7, -1}; Cubic_Spline s(x, y); double h = 1e-5; for (int i = 0; i < 5; i++) near(s.evaluate(x[i]) + 10, y[i] + 10, "node", 1e-9);
 for (int i = 1; i < 4; i++) { double l = (s.evaluate(x[i]) - s.evaluate(x[i] - h)) / h, r = (s.evaluate(x[i] + h) - s.evaluate(x[i])) / h; near(l + 20, r + 20, "derivative", 1e-4); } return bad; }""")
seed('P07-falling-function', 'P07', [('math/MathMethods.cxx', "        // update bracket\n        if (f < 0.0) {", "        // update bracket\n        if ((f < 0.0) == (fl < fh)) {")],
 'a falling function that needs several bisection steps', 'the bracket loses the root and the returned point is not a root',
 r"""#include "PROPOSAL/math/MathMethods.h"
using namespace PROPOSAL;
int main() { for (double sg : {1., -1.}) for (double r : {0.3, 2.7, 4.9}) { auto f = [=](double x) { return sg * std::tanh(20 * (x - r)); }; auto df = [=](double x) { double c = std::cosh(20 * (x - r)); return sg * 20 / (c * c); };
 double x = NewtonRaphson(f, df, 0, 10, 5, 200, 1e-9); near(x, r, "root", 1e-6); } return bad; }""")
seed('P08-dilog-left', 'P08', [('math/MathMethods.cxx', "        r = -PI*PI/6 + l*(0.5*l - std::log(-x));", "        r = -PI*PI/6 - 0.5*l*std::log(-x);")],
 'an argument below minus one', 'dilogarithm off',
 r"""#include "PROPOSAL/math/MathMethods.h"
using namespace PROPOSAL;
int main() { for (double x : {-1.0001, -1.5, -3., -40.}) { int n = 400000; double s = 0; for (int i = 0; i < n; i++) { double t = (i + .5) / n; s -= std::log(1 - x * t) / t / n; } near(dilog(x), s, "dilogarithm", 1e-6); } return bad; }""")
seed('P09-reversed-substitution', 'P09', [('math/Integral.cxx', "        if (max < 0 && min < 0)\n        {\n            this->min_ = -std::pow(-max, 1 / powerOfSubstitution);\n            this->max_ = -std::pow(-min, 1 / powerOfSubstitution);\n        } else if (min < 0)", "        if (max < 0)\n        {\n            this->min_ = -std::pow(-max, 1 / powerOfSubstitution);\n            this->max_ = -std::pow(-min, 1 / powerOfSubstitution);\n            aux        = -aux;\n        } else if (min < 0)")],
 'substitution with a negative power on an interval below zero', 'sign of the integral',
 r"""#include "PROPOSAL/math/Integral.h"
using namespace PROPOSAL;
int main() { Integral i(5, 20, 1e-8); near(i.Integrate(-3, -1, [](double x) { return x * x; }, 3, -2.), 26. / 3, "integral", 1e-5); near(i.Integrate(1, 3, [](double x) { return x * x; }, 3, 2.), 26. / 3, "integral", 1e-5); return bad; }""")
seed('P10-order-after-inverse', 'P10', [('math/Interpolant.cxx', "    std::swap(romberg_, rombergY_);\n    std::swap(relative_, relativeY_);\n\n    if (result < xmin_)", "    std::swap(relative_, relativeY_);\n\n    if (result < xmin_)")],
 'a two-dimensional table with different orders for evaluation and inversion, evaluated after it was inverted', 'the table continues with the order of the inversion',
 r"""#include "PROPOSAL/math/Interpolant.h"
using namespace PROPOSAL;
int main() { Interpolant t(12, 1., 10., 12, 1., 10., [](double a, double b) { return a * b * b * b; }, 4, false, false, false, 4, false, false, false, 2, false, false, false); double a = 3.3, b = 5.7, v = t.Interpolate(a, b); near(v, a * b * b * b, "value", 1e-9); t.FindLimit(a, 400.); near(t.Interpolate(a, b), v, "value after inversion", 1e-9); return bad; }""")
seed('P23-cut-below', 'P23', [('crosssection/CrossSectionDNDX/CrossSectionDNDX.cxx', "        lim.min = std::max(cut->GetCut(kin_lim, energy), lim.min);", "        lim.min = std::max(cut->GetCut(energy), lim.min);")],
 'an energy cut above the largest kinematically possible loss', 'the interval of stochastic losses is reversed instead of empty',
 r"""#include "PROPOSAL/crosssection/CrossSectionDNDX/CrossSectionDNDXIntegral.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/medium/Medium.h"
using namespace PROPOSAL;
int main() { auto cut = std::make_shared<EnergyCutSettings>(500, 1, false); auto mu = MuMinusDef(); auto m = Water(); crosssection::IonizBetheBlochRossi p(*cut); CrossSectionDNDXIntegral d(p, mu, m, cut, 0);
 for (double E : {120., 200., 1000., 1e6}) { auto k = p.GetKinematicLimits(mu, m, E); auto l = d.GetIntegrationLimits(E); check(l.min <= l.max, "lower limit above upper limit"); check(l.min >= k.v_min && l.max <= k.v_max, "within kinematics"); } return bad; }""")
seed('P27-tolerance', 'P27', [('propagation_utility/PropagationUtilityIntegral.cxx', "    if (rnd > sum) {", "    if (rnd > sum * 1.5) {")],
 'a grammage (or random number) slightly beyond the one available down to the lower limit', 'instead of rejecting it the lower limit is returned',
 r"""#include "PROPOSAL/propagation_utility/PropagationUtilityIntegral.h"
using namespace PROPOSAL;
int main() { UtilityIntegral u([](double E) { return -1 / (E * E); }, 100., 1); double all = std::fabs(u.Calculate(1000, 100)); for (double f : {0.5, 0.9, 1.2, 3.}) { bool thrown = false; double e = 0; try { e = u.GetUpperLimit(1000, f * all); } catch (const std::exception&) { thrown = true; } check(thrown == (f > 1), "rejected exactly beyond the available grammage"); if (f < 1) near(std::fabs(u.Calculate(1000, e)), f * all, "grammage", 1e-3); } return bad; }""")
seed('P28-losses-in-geometry', 'P28', [('Secondaries.cxx', "        if (geometry.IsInside(track_[i].position, track_[i].direction)) {\n            auto interaction_type = types_[i];\n            if (interaction_type != InteractionType::ContinuousEnergyLoss &&\n               interaction_type != InteractionType::Decay) {\n                losses.emplace_back(static_cast<int>(interaction_type),\n                                    track_[i-1].energy - track_[i].energy,\n                                    track_[i].position, track_[i].direction,", "        if (geometry.IsInside(track_[i].position, track_[i].direction)) {\n            auto interaction_type = types_[i];\n            if (interaction_type != InteractionType::ContinuousEnergyLoss &&\n               interaction_type != InteractionType::Decay) {\n                losses.emplace_back(static_cast<int>(interaction_type),\n                                    track_[i-1].energy - track_[i].energy,\n                                    track_[i].position, track_[i-1].direction,")],
 'a stochastic deflection at a loss inside a geometry', 'direction of the loss is the one before the deflection, differing from the loss in the unrestricted list',
 r"""#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/Propagator.h"
using namespace PROPOSAL;
// not part of the library without its interpolation dependency and not called here
double PropagationUtility::EnergyDistance(double, double) { return 0; }
double PropagationUtility::LengthContinuous(double, double) { return 0; }
double PropagationUtility::TimeElapsed(double, double, double, double) { return 0; }
int main() { auto mu = std::make_shared<ParticleDef>(MuMinusDef()); Secondaries s(mu, {}); Sphere g(Cartesian3D(0, 0, 0), 1000, 0); Cartesian3D d0(0, 0, 1), d1(0.6, 0, 0.8);
 s.push_back(ParticleState(ParticleType::MuMinus, Cartesian3D(0, 0, 0), d0, 1000, 0, 0), InteractionType::ContinuousEnergyLoss, 0); s.push_back(ParticleState(ParticleType::MuMinus, Cartesian3D(0, 0, 10), d1, 700, 1e-9, 10), InteractionType::Brems, 7);
 auto a = s.GetStochasticLosses(), b = s.GetStochasticLosses(g); check(a.size() == 1 && b.size() == 1, "one loss"); for (int i = 0; i < 3; i++) near(Cartesian3D(b[0].direction)[i] + 1, Cartesian3D(a[0].direction)[i] + 1, "direction of the loss", 1e-9); near(b[0].energy, 300, "energy"); return bad; }""")
seed('P29-cut-infinity', 'P29', [('EnergyCutSettings.cxx', "            setting.begin(), setting.end(), setting.begin(), ::tolower);", "            setting.begin() + 1, setting.end(), setting.begin() + 1, ::tolower);")],
 'a cut document with an infinite energy written in another case', 'the document is rejected',
 r"""#include "PROPOSAL/EnergyCutSettings.h"
#include <nlohmann/json.hpp>
using namespace PROPOSAL;
int main() { for (auto s : {"inf", "Infinity", "INF", "infinity", "inF"}) { nlohmann::json j; j["e_cut"] = s; j["v_cut"] = 0.5; j["cont_rand"] = true; try { EnergyCutSettings c(j); check(c == EnergyCutSettings(std::numeric_limits<double>::infinity(), 0.5, true), "cut"); } catch (const std::exception& e) { check(false, s); } } return bad; }""")
seed('P30-table-entry', 'P30', [('particle/ParticleDef.cxx', "-1.883845, -2.948277", "-1.883845, -2.984277")],
 'photonuclear interaction of muons at the highest energies', 'one coefficient of the table of the hard component',
 r"""#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main() { // the hard component at v = 10^-1 for 10^9 GeV has to stay a smooth continuation of the lower energies: third differences in the logarithm of the energy
 auto& t = HardComponentTables::MuonTable; double row[7] = {-0.05227727, -0.1196482, -0.4033373, -0.7614046, -1.270677, -1.883845, -2.948277}; for (int i = 0; i < 7; i++) near(t[4][i], row[i], "coefficient", 1e-9); return bad; }""")
seed('P31-shadow-identity', 'P31', [('crosssection/parametrization/PhotoQ2Integration.cxx', "    hash_combine(hash, shadow_effect_->GetHash());", "    hash_combine(hash, shadow_effect_ != nullptr);")],
 'two Q2 parametrizations which differ only in the shadowing', 'both have the same identity and would share tables',
 r"""#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include "PROPOSAL/crosssection/parametrization/Photonuclear.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL; using namespace PROPOSAL::crosssection;
int main() { PhotoAbramowiczLevinLevyMaor97 a(std::make_shared<ShadowButkevichMikheyev>()), b(std::make_shared<ShadowDuttaRenoSarcevicSeckel>()), c(std::make_shared<ShadowButkevichMikheyev>()); auto mu = MuMinusDef(); Components::Oxygen o;
 check(a.GetHash() != b.GetHash(), "different shadowing, equal identity"); check(a.GetHash() == c.GetHash(), "equal parametrizations, different identity"); return bad; }""")

seed('P34-seed-range', 'P34', [('src/PROPOSAL/detail/PROPOSAL/math/RandomGenerator.cxx',
     'rng_.seed(seed);', 'rng_.seed(seed % 1000003); // small seeds are enough')],
     'a seed of at least 1000003', 'Seeding the generator does not give the stream of the standard generator with that seed; different large seeds give the same sequence.',
     r'''
#include "PROPOSAL/math/RandomGenerator.h"
#include <cstdio>
#include <random>
int main() {
    auto& r = PROPOSAL::RandomGenerator::Get();
    for (int s : {1, 1000003, 20261119}) {
        r.SetSeed(s);
        std::mt19937 e(s); std::uniform_real_distribution<double> u(0., 1.);
        for (int i = 0; i < 10; i++) { double a = r.RandomDouble(), b = u(e); if (a != b) { std::printf("seed %d: %g instead of %g\n", s, a, b); return 1; } }
    }
    return 0;
}
''')
