// VF-SOURCES: crosssection/parametrization/WeakInteraction.cxx crosssection/parametrization/ParamTables.cxx medium/Components.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::Interpolant::Interpolant\(std::vector => vfr_table_ctor
// VF-REPLACE: ^PROPOSAL::Interpolant::InterpolateArray\(double, double\) => vfr_table
// VF-REPLACE: ^PROPOSAL::Interpolant::~Interpolant\(\) => vfr_table_dtor
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
#include "PROPOSAL/crosssection/parametrization/ParamTables.h"
#include "PROPOSAL/math/Interpolant.h"
#include <algorithm>
using namespace PROPOSAL::crosssection;
typedef std::vector<std::vector<double>> Tab;

// an interpolation table is identified by its support points and values
extern "C" void vfr_table_ctor(double* self, std::vector<double> x1, Tab x2, Tab y, int o1, bool a1, bool b1, int o2, bool a2, bool b2) {
    self[0] = o1 + 50 * o2 + 1e4 * a1 + 2e4 * b1 + 4e4 * a2 + 8e4 * b2 + x1[0] + 7 * x2[0][0] + 11 * x2[1][1]; self[1] = y[0][0] + 3 * y[1][1];
}
extern "C" double vfr_table(double* self, double a, double b) { return vf_uf4("table", self[0], self[1], a, b); }
extern "C" void vfr_table_dtor(double*) {}
static double table(const Tab& x, const Tab& y, double a, double b) {
    if (vf_symbolic()) return vf_uf4("table", 51 * IROMB + energies[0] + 7 * x[0][0] + 11 * x[1][1], y[0][0] + 3 * y[1][1], a, b);
    Interpolant i(energies, x, y, IROMB, false, false, IROMB, false, false);
    return i.InterpolateArray(a, b);
}
// Cooper-Sarkar/Mertsch/Sarkar: a negative lepton behaves like an antineutrino, a positive one like a neutrino
VF_CONTRACT(weak_cooper_sarkar_mertsch) {
    double q = vf_choose("sign", 2) ? 1 : -1;
    auto p = particle_of_mass(MMU, q); auto c = any_component();
    double E = vf_real("E", 1e5, 1e12), v = vf_real("v", 1e-2, 1), Z = c.GetNucCharge(), A = c.GetAtomicNum();
    vf_assume(E > MMU); vf_assume(v > 0); vf_assume(v <= 1);
    WeakCooperSarkarMertsch w;
    double got = w.DifferentialCrossSection(p, c, E, v), le = std::log10(E);
    double sp = q < 0 ? table(y_nubar_p, sigma_nubar_p, le, v) : table(y_nu_p, sigma_nu_p, le, v);
    double sn = q < 0 ? table(y_nubar_n, sigma_nubar_n, le, v) : table(y_nu_n, sigma_nu_n, le, v);
    double mean = (Z * sp + (A - Z) * sn) / A;
    vf_cover("reached");
    vf_assert_eq(got, NA / A * 1e-36 * std::max(mean, 0.), "charged-current cross section per nucleon in picobarn");
}
