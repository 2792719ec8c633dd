// VF-SOURCES: crosssection/parametrization/Bremsstrahlung.cxx crosssection/parametrization/ParamTables.cxx medium/Components.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::Interpolant::Interpolant\(std::vector => vfr_table_ctor
// VF-REPLACE: ^PROPOSAL::Interpolant::InterpolateArray\(double, double\) => vfr_table
// VF-REPLACE: ^PROPOSAL::Interpolant::~Interpolant\(\) => vfr_table_dtor
#include "common.hpp"
#include "tables.hpp"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/ParamTables.h"
using namespace PROPOSAL::crosssection;

extern "C" void vfr_table_ctor(double* self, const Row& x1, const Row& x2, const Tab& y, int o1, bool a1, bool b1, int o2, bool a2, bool b2) {
    self[0] = row_id(x1, 1) + row_id(x2, 5) + table_orders(o1, a1, b1) + 1e3 * table_orders(o2, a2, b2); self[1] = tab_id(y, 1);
}
extern "C" double vfr_table(double* self, double a, double b) { return vf_uf4("table", self[0], self[1], a, b); }
extern "C" void vfr_table_dtor(double*) {}
static double correction(double logZ, double T) {
    if (vf_symbolic()) return vf_uf4("table", row_id(A_logZ, 1) + row_id(A_energies, 5) + 2 + 2e3, tab_id(A_correction, 1), logZ, T);
    static Interpolant i(A_logZ, A_energies, A_correction, 2, false, false, 2, false, false);
    return i.InterpolateArray(logZ, T);
}
// EGS4 (SLAC-265), section 2.7: screening functions, Coulomb correction above 50 MeV, the empirical normalisation below
VF_CONTRACT(brems_electron_screening) {
    double q = vf_choose("sign", 2) ? 1 : -1;
    auto p = particle_of_mass(ME, q); auto c = any_component();
    double E = vf_real("E", 1, 200), v = vf_real("v", 1e-4, 0.98), Z = c.GetNucCharge(), A = c.GetAtomicNum();
    vf_assume(E > ME); vf_assume(v > 0); vf_assume(v < 1);
    BremsElectronScreening b(false);
    double got = b.DifferentialCrossSection(p, c, E, v);
    double Lr, Lp; int z = (int)(Z + 0.5); double Z3 = std::pow(Z, -1. / 3);
    if (z == 1) { Lr = 5.31; Lp = 6.144; }
    else if (z == 2) { Lr = 4.79; Lp = 5.621; }
    else if (z == 3) { Lr = 4.74; Lp = 5.805; }
    else if (z == 4) { Lr = 4.71; Lp = 5.924; }
    else { Lr = std::log(184.15 * Z3); Lp = std::log(1194 * Z3 * Z3); }
    double a = sq(ALPHA * Z), f = a * (1 / (1 + a) + 0.20206 - 0.0369 * a + 0.0083 * a * a - 0.002 * a * a * a);
    double d = 136 * Z3 * ME * v / (E * (1 - v)), p1, p2;
    if (d <= 1) { p1 = 20.867 - 3.242 * d + .625 * d * d; p2 = 20.029 - 1.930 * d - .086 * d * d; }
    else p1 = p2 = 21.12 - 4.184 * std::log(d + .952);
    double norm = E < 50 ? correction(std::log(Z), E - ME) : 1, l = 4. / 3 * std::log(Z) + (E < 50 ? 0 : 4 * f);
    double s = norm * Z * (Z + Lp / (Lr - f)) * ((2 - 2 * v + v * v) * (p1 - l) - 2. / 3 * (1 - v) * (p2 - l));
    vf_cover("reached");
    vf_assert_eq_tol(got, NA / A * sq(RE) * ALPHA / v * s, "EGS4 bremsstrahlung of electrons with screening", 1e-3);
}
