seed('P01-relative-precision', 'P01', [('geometry/Sphere.cxx', """        // Computer precision controll
        if (t1 > 0 && t1 < GEOMETRY_PRECISION)
            t1 = 0;
        if (t2 > 0 && t2 < GEOMETRY_PRECISION)
            t2 = 0;

        // (-1/-1) sphere""", """        // Computer precision controll
        if (t1 > 0 && t1 < GEOMETRY_PRECISION * radius_)
            t1 = 0;
        if (t2 > 0 && t2 < GEOMETRY_PRECISION * radius_)
            t2 = 0;

        // (-1/-1) sphere""")],
 'a sphere of planetary size and a particle less than a centimetre below its surface', 'the particle close to the surface is reported to be outside',
 r"""#include "PROPOSAL/geometry/Sphere.h"
using namespace PROPOSAL;
int main() { Sphere s(Cartesian3D(0, 0, 0), 6.4e8, 0); auto d = s.DistanceToBorder(Cartesian3D(0, 0, 6.4e8 - 0.25), Cartesian3D(0, 0, 1));
 near(d.first, 0.25, "distance to the surface", 1e-4); check(s.IsInside(Cartesian3D(0, 0, 6.4e8 - 0.25), Cartesian3D(0, 0, 1)), "inside"); return bad; }""")
seed('P03-azimuth-zero', 'P03', [('math/Cartesian3D.cxx', "    if(cosphi_deflect != 1 || theta_deflect != 0)", "    if(cosphi_deflect != 1 && theta_deflect != 0)")],
 'a deflection with azimuth exactly zero', 'the direction is not deflected at all',
 r"""#include "PROPOSAL/math/Cartesian3D.h"
using namespace PROPOSAL;
int main() { for (double c : {-0.1, 0.2, 0.9}) { Cartesian3D v(0.6, 0, 0.8), w(v); w.deflect(c, 0.); near(v * w, c, "cosine of the deflection", 1e-9); } return bad; }""")
seed('P04-below-lower-limit', 'P04', [('EnergyCutSettings.cxx', "std::min(std::max(lim.v_min, GetCut(energy)), lim.v_max)", "std::min(GetCut(energy), lim.v_max)")],
 'an energy cut below the lower kinematic limit', 'the threshold lies below the kinematically allowed interval',
 r"""#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
using namespace PROPOSAL;
int main() { EnergyCutSettings c(10, 0.05, false); crosssection::KinematicLimits l; l.v_min = 0.03; l.v_max = 0.9; near(c.GetCut(l, 1000.), 0.03, "threshold"); return bad; }""")
seed('P03-lower-halfspace', 'P03', [('math/Cartesian3D.cxx', "    auto zenith = std::acos(GetZ() / r);", "    auto zenith = std::atan(std::hypot(GetX(), GetY()) / GetZ());")],
 'a vector in the lower half space', 'the zenith angle is negative instead of above 90 degrees',
 r"""#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
using namespace PROPOSAL;
int main() { Cartesian3D v(0.6, 0, -0.8); near(Spherical3D(v).GetZenith(), std::acos(-0.8), "zenith"); return bad; }""")
seed('P11-low-instead-of-mass', 'P11', [('particle/Particle.cxx', "+ std::pow(GetParticleDef().mass, 2));", "+ std::pow(GetParticleDef().low, 2));")],
 'a particle definition whose lower energy limit differs from its mass', 'setting the momentum does not satisfy E^2 = p^2 + m^2',
 r"""#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main() { auto def = ParticleDef::Builder().SetName("slow").SetMass(200).SetLow(300).SetCharge(1).SetParticleType(4711).build(); ParticleState p; p.type = 4711; p.SetMomentum(150);
 near(p.energy, 250, "energy"); near(p.GetMomentum(), 150, "momentum"); return bad; }""")
seed('P18-aux-abb', 'P18', [('crosssection/parametrization/Bremsstrahlung.cxx', "        d2 = aux1 + 0.5 * ((3 - zeta * zeta) * aux2 + aux * aux);", "        d2 = aux1 + 0.5 * ((3 - zeta * zeta) * aux2 + aux);")],
 'bremsstrahlung of Andreev, Bezrukov and Bugaev in an element other than hydrogen', 'the nuclear form factor correction to the second screening function',
 r'''#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/Constants.h"
using namespace PROPOSAL;
int main() { Components::Iron c; double Z = 26, m = MMU, E = 1e5, v = 0.2, Z3 = std::pow(Z, -1. / 3);
 double a1 = 184.15 * Z3 / (SQRTE * ME), a2 = 1194 * Z3 * Z3 / (SQRTE * ME), qc = 1.9 * MMU * Z3, ze = std::sqrt(1 + 4 * m * m / qc / qc);
 double l = std::log(m / qc), k = 0.5 * ze * std::log((ze + 1) / (ze - 1)), d1 = l + k, d2 = l + 0.5 * ((3 - ze * ze) * k + 4 * m * m / qc / qc);
 double de = m * m * v / (2 * E * (1 - v)), x1 = a1 * de, x2 = a2 * de;
 double p1 = 0.5 * (1 + std::log(m * m * a1 * a1 / (1 + x1 * x1)) + (1 + std::log(m * m * a2 * a2 / (1 + x2 * x2))) / Z) - x1 * std::atan(1 / x1) - x2 * std::atan(1 / x2) / Z - d1;
 double p2 = 0.5 * (2. / 3 + std::log(m * m * a1 * a1 / (1 + x1 * x1)) + (2. / 3 + std::log(m * m * a2 * a2 / (1 + x2 * x2))) / Z)
  + 2 * x1 * x1 * (1 - x1 * std::atan(1 / x1) + 0.75 * std::log(x1 * x1 / (1 + x1 * x1))) + 2 * x2 * x2 * (1 - x2 * std::atan(1 / x2) + 0.75 * std::log(x2 * x2 / (1 + x2 * x2))) / Z - d2;
 crosssection::BremsAndreevBezrukovBugaev b(false);
 near(b.CalculateParametrization(MuMinusDef(), c, E, v), (2 - 2 * v + v * v) * p1 - 2. / 3 * (1 - v) * p2, "ABB", 1e-6); return bad; }''')
seed('P19-zeta-threshold', 'P19', [('crosssection/parametrization/EpairProduction.cxx', "    if (aux1 > 0 && aux2 > 0) {\n        atomic_electron_contribution = aux1 / aux2;", "    if (aux2 > 0) {\n        atomic_electron_contribution = aux1 / aux2;")],
 'pair production between the zeros of the two logarithms of the atomic electron correction (muons of 1.2 to 3.7 GeV)', 'the contribution of atomic electrons becomes negative instead of vanishing',
 r'''#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/Constants.h"
using namespace PROPOSAL;
int main() { Components::Hydrogen h; Component he("x", 1.000001, h.GetAtomicNum(), 1); crosssection::EpairKelnerKokoulinPetrukhin e(false); MuMinusDef mu;
 // nearly the same nucleus: no electrons contribute at this energy, so both functions are smooth in Z up to the tabulated logarithm
 double E = 2000, v = 0.1, r = 0.5;
 double a = e.FunctionToIntegral(mu, h, E, v, r);
 // reference computed by hand with zeta = 0
 double rho = 1 - r, r2 = rho * rho, m = mu.mass, xi = std::pow(m * v / (2 * ME), 2) * (1 - r2) / (1 - v), be = v * v / (2 * (1 - v)), B = h.GetLogConstant();
 double Ye = (5 - r2 + 4 * be * (1 + r2)) / (2 * (1 + 3 * be) * std::log(3 + 1 / xi) - r2 - 2 * be * (2 - r2)), Ym = (4 + r2 + 3 * be * (1 + r2)) / ((1 + r2) * (1.5 + 2 * be) * std::log(3 + xi) + 1 - 1.5 * r2);
 double q = 2 * ME * SQRTE * B / (E * v * (1 - r2)), w = 1.5 * ME / m, ue = (1 + xi) * (1 + Ye), um = (1 + xi) * (1 + Ym);
 double Le = std::log(B * std::sqrt(ue) / (1 + q * ue)) - 0.5 * std::log(1 + w * w * ue), Lm = std::log(B / w / (1 + q * um));
 double Pe = Le > 0 ? Le * (((2 + r2) * (1 + be) + xi * (3 + r2)) * std::log(1 + 1 / xi) + (1 - r2 - be) / (1 + xi) - (3 + r2)) : 0;
 double Pm = Lm > 0 ? Lm * (((1 + r2) * (1 + 1.5 * be) - (1 + 2 * be) * (1 - r2) / xi) * std::log(1 + xi) + xi * (1 - r2 - be) / (1 + xi) + (1 + 2 * be) * (1 - r2)) : 0;
 near(a, ALPHA * ALPHA * RE * RE / (1.5 * PI) * 2 * (1 - v) / v * (Pe + ME * ME / m / m * Pm), "hydrogen", 1e-7); return bad; }''')
seed('P20-density-edge', 'P20', [('crosssection/parametrization/Ionization.cxx', "    v_up = limits.v_max;\n    v_up = std::min(v_up, cuts_.GetCut(energy));\n\n    aux = beta * gamma", "    v_up = limits.v_max;\n    v_up = std::min(v_up, cuts_.GetEcut() < energy ? cuts_.GetEcut() / energy : cuts_.GetVcut());\n\n    aux = beta * gamma")],
 'a cut whose relative part is the smaller one (vcut * E < ecut < E)', 'the continuous ionization loss uses the absolute cut although the relative one is smaller',
 r'''#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main() { Ice ice; MuMinusDef mu; crosssection::IonizBetheBlochRossi a(EnergyCutSettings(500, 0.01, false)), b(EnergyCutSettings(1e9, 0.01, false));
 near(a.IonizationLoss(mu, ice, 1e4), b.IonizationLoss(mu, ice, 1e4), "only the smaller cut matters"); return bad; }''')
seed('P16-mean-nucleon-weight', 'P16', [('medium/Medium.cxx', """        aux3 += (iter)->GetAtomInMolecule() * (iter)->GetAtomicNum() *
                (iter)->GetAverageNucleonWeight();""", """        aux3 += (iter)->GetAtomInMolecule() * (iter)->GetNucCharge() *
                (iter)->GetAverageNucleonWeight();"""), ('medium/Medium.cxx', "    MM_ = aux3 / aux2;", "    MM_ = aux3 / aux1;")],
 'a compound medium whose elements have different Z/A (anything with hydrogen)', 'the mean nucleon weight is weighted with protons instead of nucleons',
 r"""#include "PROPOSAL/medium/Medium.h"
using namespace PROPOSAL;
int main() { Ice m; auto c = m.GetComponents(); double n = 0, d = 0; for (auto& x : c) { n += x.GetAtomInMolecule() * x.GetAtomicNum() * x.GetAverageNucleonWeight(); d += x.GetAtomInMolecule() * x.GetAtomicNum(); }
 near(m.GetMM(), n / d, "mean nucleon weight", 1e-9); return bad; }""")
seed('P12-type-collision', 'P12', [('particle/ParticleDef.cxx', "        if (*this != it->second ) {", "        if (*this != it->second && this->mass != it->second.mass) {")],
 'registering a second, different particle with a known type and the same mass', 'a conflicting definition under a known type is accepted silently',
 r'''#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main() { MuMinusDef mu; bool thrown = false; try { ParticleDef x("MuMinus", mu.mass, mu.low, mu.lifetime, 2 * mu.charge, mu.hard_component_table, mu.decay_table, mu.particle_type, mu.weak_partner); } catch (const std::invalid_argument&) { thrown = true; }
 check(thrown, "a doubly charged muon must not be registered as muon"); return bad; }''')
seed('P17-mupair-threshold', 'P17', [('crosssection/parametrization/EpairProduction.cxx', "    aux = 1 - 6 * aux * aux;", "    aux = 1 - 6 * aux * aux * aux;")],
 'pair production close to threshold, where the second bound is the smaller one (heavy projectile or hydrogen at low energy)', 'the upper kinematic limit of pair production',
 r'''#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
int main() { MuMinusDef mu; crosssection::EpairKelnerKokoulinPetrukhin e(false); double E = 5 * mu.mass; auto l = e.GetKinematicLimits(mu, Components::Hydrogen(), E); near(l.v_max, std::min(1 - 0.75 * std::sqrt(std::exp(1.)) / 5, 1 - 6. / 25), "upper limit", 1e-6);
 E = 4 * mu.mass; l = e.GetKinematicLimits(mu, Components::Hydrogen(), E); near(l.v_max, 1 - 6. / 16, "upper limit", 1e-6); return bad; }''')
seed('P22-mupair-umax', 'P22', [('crosssection/parametrization/MupairProduction.cxx', "    xi = v * v * (1 - rMax * rMax) / (4 * (1 - v));\n", "")],
 'muon pair production at an asymmetry away from the kinematic limit', 'the subtraction at the kinematic limit uses the screening variable of the asymmetry itself',
 r"""#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/Constants.h"
using namespace PROPOSAL;
static double U(double E, double v, double r, double Z3, double A) { double xi = v * v * (1 - r * r) / (4 * (1 - v)), Y = 12 * std::sqrt(MMU / E);
 return 0.65 * std::pow(A, -0.27) * 183 * Z3 * MMU / ME / (1 + 2 * SQRTE * MMU * MMU * 183 * Z3 * (1 + xi) * (1 + Y) / (ME * E * v * (1 - r * r))); }
int main() { MuMinusDef mu; Components::Iron c; crosssection::MupairKelnerKokoulinPetrukhin m; double E = 1e5, v = 0.3, r = 0.2, Z3 = std::pow(26., -1. / 3), A = c.GetAtomicNum();
 double r2 = r * r, be = v * v / (2 * (1 - v)), xi = v * v / 4 * (1 - r2) / (1 - v), rm = 1 - 2 * MMU / (v * E);
 double phi = ((2 + r2) * (1 + be) + xi * (3 + r2)) * std::log(1 + 1 / xi) + ((1 + r2) * (1 + 1.5 * be) - (1 + 2 * be) * (1 - r2) / xi) * std::log(1 + xi) - 1 - 3 * r2 + be * (1 - 2 * r2);
 double pre = std::pow(ALPHA * RE * ME / MMU * 26, 2) * 2 * (1 - v) / (1.5 * PI * v);
 near(m.FunctionToIntegral(mu, c, E, v, r), pre * phi * std::log(1 + U(E, v, r, Z3, A) - U(E, v, rm, Z3, A)), "mupair", 1e-4); return bad; }""")
