seed('P13-fourth-boost', 'P13', [('decay/ManyBodyPhaseSpace.cxx', "        for (unsigned int s = 0; s < i; ++s)", "        for (unsigned int s = 0; s < std::min(i, 2u); ++s)")],
 'a decay into at least four products', 'the third product is not boosted along with the first two: four-momentum is not conserved',
 r"""#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/Constants.h"
using namespace PROPOSAL;
int main() { auto tau = TauMinusDef(); auto ch = ManyBodyPhaseSpace::Builder().addDaughter(NuTauDef()).addDaughter(PiMinusDef()).addDaughter(PiMinusDef()).addDaughter(PiPlusDef()).build();
 for (int k = 0; k < 50; k++) { ParticleState s(ParticleType::TauMinus, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 5000, 0, 0); auto out = ch.Decay(tau, s); double E = 0, p[3] = {0, 0, 0};
  for (auto& o : out) { E += o.energy; Cartesian3D d(o.direction); double m = o.GetMomentum(); for (int i = 0; i < 3; i++) p[i] += m * d[i]; }
  near(E, 5000, "energy", 1e-6); near(p[2] + 1e4, std::sqrt(5000 * 5000 - MTAU * MTAU) + 1e4, "momentum", 1e-4); check(std::fabs(p[0]) < 1 && std::fabs(p[1]) < 1, "transverse momentum"); } return bad; }""")
seed('P13-reversed-weight', 'P13', [('decay/ManyBodyPhaseSpace.cxx', "    double E_max = parent_def.mass - sum_daughter_masses_ + daughter_masses_[0];", "    double E_max = parent_def.mass - sum_daughter_masses_;")],
 'a decay whose first product is massive, sampled uniformly', 'the bound on the phase space weight is too small, so the sampled distribution is truncated',
 r"""#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/Constants.h"
#define private public
#undef private
using namespace PROPOSAL;
// three equal masses: the distribution of each energy is symmetric under exchange of the products
int main() { ParticleDef a("a", 300, 300, -1, 0, HardComponentTables::EmptyTable, DecayTable(), 910001, 0), b("b", 300, 300, -1, 0, HardComponentTables::EmptyTable, DecayTable(), 910002, 0), c("c", 300, 300, -1, 0, HardComponentTables::EmptyTable, DecayTable(), 910003, 0), M("M", 1000, 1000, -1, 0, HardComponentTables::EmptyTable, DecayTable(), 910004, 0);
 auto ch = ManyBodyPhaseSpace::Builder().addDaughter(a).addDaughter(b).addDaughter(c).build(); double s[3] = {0, 0, 0}; int n = 40000;
 ParticleState in; in.type = 910004; in.energy = 1000; in.direction = Cartesian3D(0, 0, 1); in.position = Cartesian3D(0, 0, 0); double s2[3] = {0, 0, 0};
 for (int k = 0; k < n; k++) { auto o = ch.Decay(M, in); for (int i = 0; i < 3; i++) { double t = o[i].energy - 300; s[i] += t; s2[i] += t * t; } }
 near(s2[0] / n, s2[2] / n, "second moment of the kinetic energy of the first and third product", 0.02); return bad; }""")
seed('P14-lepton-log', 'P14', [('decay/LeptonicDecayChannel.cxx', "    return 1.5 * m2 * m2 * M * std::log(sqrt_EM + E_l) +", "    return 1.5 * m2 * m2 * M * std::log(E_l) +")],
 'the exact leptonic decay with a lepton mass which is not negligible (tau to muon)', 'the integrated spectrum no longer belongs to the differential one',
 r"""#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/particle/Particle.h"
using namespace PROPOSAL;
// the sampled energy solves F(x) - F(xmin) = u (F(1) - F(xmin)) with the electroweak spectrum integrated numerically
int main() { auto tau = TauMinusDef(); LeptonicDecayChannel ch{MuMinusDef(), NuTauDef(), NuMuBarDef()}; double M = MTAU, m = MMU, emax = (M * M + m * m) / (2 * M), u;
 auto f = [&](double E) { return std::sqrt(std::max(0., E * E - m * m)) * (M * E * (3 * M - 4 * E) + m * m * (3 * E - 2 * M)); };
 for (double uu : {1e-5, 2e-5, 5e-5}) { u = uu; int n = 0; std::function<double()> rg = [&] { return n++ == 0 ? u : 0.5; }; RandomGenerator::Get().SetRandomNumberGenerator(rg); ParticleState s(ParticleType::TauMinus, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), M, 0, 0); auto o = ch.Decay(tau, s);
  auto F = [&](double hi, int N) { double t = 0, h = (hi - m) / N; for (int i = 0; i < N; i++) t += f(m + (i + .5) * h) * h; return t; }; double tot = F(emax, 2000000), part = F(o[0].energy, 200000);
  std::printf("%g %g\n", u, part / tot); near(part / tot, u, "integrated spectrum", 0.05); } return bad; }""")
seed('P15-branching-sum', 'P15', [('decay/DecayTable.cxx', "    rnd = sumBranchingRatio * rnd;", "    rnd = std::max(sumBranchingRatio, 1.0) * rnd;")],
 'a decay table whose branching ratios add up to less than one', 'the first channel is selected too often',
 r"""#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main() { DecayTable t; TwoBodyPhaseSpace a{MuMinusDef(), NuMuBarDef()}, b{EMinusDef(), NuEBarDef()}; t.addChannel(0.2, a); t.addChannel(0.3, b); int n = 0; for (int i = 0; i < 1000; i++) if (t.SelectChannel((i + .5) / 1000) == b) n++; near(n, 600, "selections", 0.01); return bad; }""")
seed('P21-electron-q2', 'P21', [('crosssection/parametrization/PhotoQ2Integration.cxx', "        q2_min -= (aux * aux) / (2 * (1 - v));", "        q2_min -= (aux * aux) * v / (2 * (1 - v));")],
 'photonuclear interaction of particles lighter than the pion (electrons), at low energy', 'lower limit of the momentum transfer',
 r'''#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include "PROPOSAL/crosssection/parametrization/Photonuclear.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/Constants.h"
using namespace PROPOSAL;
struct P : public crosssection::PhotoQ2Integral { P() : PhotoQ2Integral(std::make_shared<crosssection::ShadowButkevichMikheyev>()) {}
 std::unique_ptr<crosssection::Parametrization<Component>> clone() const final { return nullptr; }
 double FunctionToQ2Integral(const ParticleDef&, const Component&, double, double, double Q2) const override { return 1 / (Q2 * Q2); } };
int main() { Components::Oxygen c; ParticleDef p("light", 100, 100, -1, 1, HardComponentTables::EmptyTable, DecayTable(), 920001, 0); P par; for (double E : {1000., 2000.}) { auto l = par.GetKinematicLimits(p, c, E); double v = 0.5 * (l.v_min + l.v_max), m = 100, q0 = m * m * v * v / (1 - v) - std::pow(m * m / E, 2) / (2 * (1 - v)), q1 = 2 * c.GetAverageNucleonWeight() * E * (v - l.v_min);
 if (q0 > 0 && q1 > q0) near(par.DifferentialCrossSection(p, c, E, v), NA / c.GetAtomicNum() * (1 / q0 - 1 / q1), "integral over Q2", 1e-3); else bad = 1; } return bad; }''')
seed('P24-thin-layer', 'P24', [('scattering/multiple_scattering/Highland.cxx', "        * std::max(1. + 0.088 * std::log10(y), 0.);", "        * (1. + 0.088 * std::max(std::log10(y), -10.));")],
 'a very thin layer (less than 1e-10 radiation lengths)', 'the width of the scattering angle differs from the documented one',
 r"""#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/math/MathMethods.h"
using namespace PROPOSAL;
int main() { auto mu = MuMinusDef(); Water w; multiple_scattering::Highland h(mu, w); for (double y : {1e-11, 1e-4}) { double E = 1000, b = (E * E - MMU * MMU) / E; double t = 13.6 / b * std::sqrt(y) * (1 + 0.088 * std::log10(y));
 near(h.CalculateScatteringAngle(y * w.GetRadiationLength(), E, E, 0.9), t * normalppf(0.9), "width", 1e-9); } return bad; }""")
seed('P25-borog-soft', 'P25', [('scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx', "    auto t_1 = std::min(epsilon * epsilon, m_0 * m_0);", "    auto t_1 = m_0 * m_0;")],
 'photonuclear losses below 632 MeV', 'the sampled momentum transfer is too large for soft losses',
 r"""#include "PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/Constants.h"
using namespace PROPOSAL;
int main() { auto mu = MuMinusDef(); Water w; stochastic_deflection::PhotoBorogPetrukhin d(mu, w); for (double k : {300., 2000.}) { double E = 10000, f = E - k, y = k / E, m = MMU, tx = 2 * MP * k, tn = m * m * y * y / (1 - y), t1 = std::min(k * k, 4e5), u = 0.5;
 double t = tx * t1 / ((tx + t1) * std::pow(tx * (tn + t1) / (tn * (tx + t1)), u) - tx), s = (t - tn) / (4 * (E * f - m * m) - 2 * tn); near(d.CalculateStochasticDeflection(E, f, {u, 0.1}, 0).zenith, 2 * std::asin(std::sqrt(s)), "deflection", 1e-9); } return bad; }""")
seed('P26-recoil-azimuth', 'P26', [('secondaries/parametrization/ionization/NaivIonization.cxx', "std::fmod(rnd * 2. * PI + PI, 2. * PI)", "std::fmod(rnd * 2. * PI, PI) + PI")],
 'a delta ray whose azimuth lies in the upper half of the circle', 'the recoil electron and the lepton leave to the same side, transverse momentum is not conserved',
 r"""#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/Constants.h"
using namespace PROPOSAL;
int main() { auto mu = MuMinusDef(); Water w; secondaries::NaivIonization s(mu, w); for (double u : {0.2, 0.7}) { double E = 1e4, k = 500; StochasticLoss l((int)InteractionType::Ioniz, k, Cartesian3D(0, 0, 0), Cartesian3D(0.6, 0, 0.8), 0, 0, E); std::vector<double> r{u};
 auto o = s.CalculateSecondaries(l, Components::Hydrogen(), r); double p1 = std::sqrt((E - k) * (E - k) - MMU * MMU), p2 = std::sqrt((k + ME) * (k + ME) - ME * ME), P = std::sqrt(E * E - MMU * MMU); Cartesian3D a(o[0].direction), b(o[1].direction), d(l.direction); for (int i = 0; i < 3; i++) near(p1 * a[i] + p2 * b[i] + 2e4, P * d[i] + 2e4, "momentum", 1e-6); } return bad; }""")
