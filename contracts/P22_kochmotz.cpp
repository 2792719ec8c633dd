// VF-SOURCES: crosssection/parametrization/PhotoPairProduction.cxx crosssection/parametrization/ParamTables.cxx medium/Components.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::Interpolant::Interpolant\(std::vector => vfr_table_ctor
// VF-REPLACE: ^PROPOSAL::Interpolant::InterpolateArray\(double, double\) => vfr_table
// VF-REPLACE: ^PROPOSAL::Interpolant::~Interpolant\(\) => vfr_table_dtor
#include "common.hpp"
#include "tables.hpp"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/ParamTables.h"
using namespace PROPOSAL::crosssection;

extern "C" void vfr_table_ctor(double* self, const Row& x1, const Row& x2, const Tab& y, int o1, bool a1, bool b1, int o2, bool a2, bool b2) {
    self[0] = row_id(x1, 1) + row_id(x2, 5) + table_orders(o1, a1, b1) + 1e3 * table_orders(o2, a2, b2); self[1] = tab_id(y, 1);
}
extern "C" double vfr_table(double* self, double a, double b) { return vf_uf4("table", self[0], self[1], a, b); }
extern "C" void vfr_table_dtor(double*) {}
// the tabulated total cross section (Storm and Israel) which normalises Koch-Motz below 50 MeV
VF_CONTRACT(koch_motz_table) {
    PhotoPairKochMotz k(false);
    double Z = vf_real("Z", 1, 90), E = vf_real("E", 1.1, 50);
    double want;
    if (vf_symbolic()) want = vf_uf4("table", row_id(photopair_KM_Z, 1) + row_id(photopair_KM_energies, 5) + 2 + 2e3, tab_id(photopair_KM_cross, 1), Z, E);
    else { static Interpolant i(photopair_KM_Z, photopair_KM_energies, photopair_KM_cross, 2, false, false, 2, false, false); want = i.InterpolateArray(Z, E); }
    vf_cover("reached");
    vf_assert_eq(k.interpolant_->InterpolateArray(Z, E), want, "tabulated total cross section");
}
