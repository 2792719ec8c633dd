// VF-SOURCES: crosssection/parametrization/EpairProduction.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
using namespace PROPOSAL::crosssection;
// Ternovskii functions, Polityko et al., J. Phys. G 28 (2002) 427, eq. A.2
VF_CONTRACT(epair_lpm_suppression) {
    auto p = any_particle();
    static char buf[sizeof(EpairLPM)];
    EpairLPM& l = *(EpairLPM*)buf;
    l.hash = 1; l.mass_ = p.mass; l.charge_ = p.charge;
    l.mol_density_ = vf_real("mol", 1e20, 1e24); l.eLpm_ = vf_real("eLPM", 1e2, 1e16);
    double E = vf_real("E", 1e2, 1e9), v = vf_real("v", 1e-6, 1), r2 = vf_real("rho2", 0, 1), b = vf_real("beta", 0, 10), x = vf_real("xi", 1e-6, 1e4), dc = vf_real("dc", 0.1, 3);
    vf_assume(l.eLpm_ > 0); vf_assume(E > 0); vf_assume(v > 0); vf_assume(r2 >= 0); vf_assume(r2 < 1); vf_assume(b >= 0); vf_assume(x > 0); vf_assume(dc > 0);
    double got = l.suppression_factor(E, v, r2, b, x, dc);
    double s = std::sqrt(l.eLpm_ / (E * dc * v * (1 - r2))) / 4, s6 = 6 * s, S = s6 * s6;
    if (s6 * (1 + x) > 1 / COMPUTER_PRECISION) {
        vf_assert_eq(got, 1, "no suppression far below the LPM energy");
        return;
    }
    double at = std::atan(s6 * (x + 1)) - PI / 2;
    double L1 = std::log((S * sq(1 + x) + 1) / (S * x * x)), L2 = std::log((s6 * (1 + x) + 1) / (s6 * x));
    double q = S / (S + 1), d = s6 / (s6 + 1);
    double A = q / 2 * (1 + 2 * q * x) * L1 - q + 6 * q * s * (1 + (S - 1) / (S + 1) * x) * at;
    double Bt = d * (1 + d * x) * L2 - d;
    double Ct = -q * q * x * L1 + q - q * q * (S - 1) / s6 * x * at;
    double Dt = d - d * d * x * L2;
    double Et = -s6 * at;
    double num = (1 + b) * (A + (1 + r2) * Bt) + b * (Ct + (1 + r2) * Dt) + (1 - r2) * Et;
    double den = ((2 + r2) * (1 + b) + x * (3 + r2)) * std::log(1 + 1 / x) + (1 - r2 - b) / (1 + x) - (3 + r2);
    vf_assert_eq(got, num / den, "LPM suppression of pair production");
}
// characteristic LPM energy of a medium of two arbitrary elements
VF_CONTRACT(epair_lpm_energy) {
    auto p = any_particle();
    Component c1 = any_component(), c2 = any_component();
    Medium m;
    m.components_ = {c1, c2};
    m.molDensity_ = vf_real("mol", 1e20, 1e24);
    vf_assume(m.molDensity_ > 0);
    EpairLPM l(p, m);
    double sum = 0;
    for (auto& c : {c1, c2}) sum += sq(c.nucCharge_) * std::log(3.25 * c.logConstant_ * std::pow(c.nucCharge_, -1. / 3));
    double want = cube(p.mass / (ME * RE)) * ALPHA * p.mass / (2 * PI * m.molDensity_ * sq(p.charge) * sum);
    vf_assert_eq(l.eLpm_, want, "LPM energy of pair production");
    vf_assert_eq(l.mass_, p.mass, "LPM uses the particle mass");
}
