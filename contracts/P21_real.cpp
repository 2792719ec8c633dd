// VF-SOURCES: crosssection/parametrization/PhotoRealPhotonAssumption.cxx crosssection/parametrization/Photonuclear.cxx crosssection/parametrization/Photoproduction.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::Interpolant::Interpolant\(std::vector => vfr_table_ctor
// VF-REPLACE: ^PROPOSAL::Interpolant::Interpolant\(PROPOSAL::Interpolant const&\) => vfr_table_copy
// VF-REPLACE: ^PROPOSAL::Interpolant::InterpolateArray\(double\) => vfr_table
// VF-REPLACE: ^PROPOSAL::Interpolant::~Interpolant\(\) => vfr_table_dtor
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.h"
#include "PROPOSAL/crosssection/parametrization/Photoproduction.h"
#include "PROPOSAL/math/Interpolant.h"
#include <algorithm>
#include <memory>
using namespace PROPOSAL::crosssection;
// an interpolation table is identified by its support points and values
extern "C" void vfr_table_ctor(double* self, const std::vector<double>& x, const std::vector<double>& y, int, bool, bool) {
    double s = 0;
    for (size_t i = 0; i < x.size(); i++) s += (1. + i) * x[i] + (2. + i) * y[i];
    self[0] = s;
}
extern "C" void vfr_table_copy(double* self, double* o) { self[0] = o[0]; }
extern "C" double vfr_table(double* self, double x) { return vf_uf2("table1", self[0], x); }
extern "C" void vfr_table_dtor(double*) {}
static double table(const std::vector<double>& x, const std::vector<double>& y, double a) {
    if (!vf_symbolic()) { Interpolant i(x, y, 4, false, false); return i.InterpolateArray(a); }
    double s = 0;
    for (size_t i = 0; i < x.size(); i++) s += (1. + i) * x[i] + (2. + i) * y[i];
    return vf_uf2("table1", s, a);
}
// any photon-nucleon cross section
struct AnyPhoto : PhotoproductionZeus {
    double PhotonNucleonCrossSection(double E, const Component& c) override { return vf_uf2("sigma_photon", E, c.atomicNum_); }
};
struct RealPhotonModel : PhotoRealPhotonAssumption {
    RealPhotonModel(bool hard) : PhotoRealPhotonAssumption(hard, std::make_shared<AnyPhoto>()) {}
    std::unique_ptr<Parametrization<Component>> clone() const override { return std::make_unique<RealPhotonModel>(*this); }
};
static double shadow(const Component& c, double s) {
    if (c.nucCharge_ == 1) return 1;
    double x = .00282 * std::pow(c.atomicNum_, 1. / 3) * s;
    return 3 / cube(x) * (sq(x) / 2 - 1 + std::exp(-x) * (1 + x));
}
// Bezrukov-Bugaev with the corrections of Bugaev-Shlepin (masses in GeV)
static double bezrukov_bugaev(double m, double v, double A, double s, double G) {
    const double m1 = .54, m2 = 1.80;
    double mu2 = sq(m / 1000), t = mu2 * sq(v) / (1 - v), k = 1 - 2 / v + 2 / sq(v);
    return ALPHA / (8 * PI) * A * v * s * 1e-30 * (
        3 * G * ((k + 4 * mu2 / m1) * std::log(1 + m1 / t) - k * m1 / (m1 + t) - 2 * mu2 / t)
        + (k + 2 * mu2 / m2) * std::log(1 + m2 / t) - 2 * mu2 / t
        + 2 * mu2 / t * (3 * G * (m1 - 4 * t) / (m1 + t) + m2 / t * std::log(1 + t / m2)));
}
static void real_photon(int hard) {
    bool tau = hard == 2;
    double m = vf_real("mass", 0.5, 2000), z = vf_real("charge", 1, 3); vf_assume(m > 0); vf_assume(z > 0);
    const auto& T = tau ? HardComponentTables::TauTable : HardComponentTables::MuonTable;
    ParticleDef p("any", m, m, -1, z, hard ? T : HardComponentTables::EmptyTable, DecayTable(), 0, 0);
    auto c = any_component();
    if (vf_choose("hydrogen", 2)) c.nucCharge_ = 1; else vf_assume(c.nucCharge_ != 1);
    double E = std::pow(10, vf_real("logE", 3, 11)), v = std::pow(10, vf_real("logv", -8, -0.01)), A = c.atomicNum_;
    if (vf_symbolic()) { E = vf_real("E", 0, 1); v = vf_real("v", 0, 1); }
    vf_assume(E > 0); vf_assume(v > 0); vf_assume(v < 1);
    RealPhotonModel f(hard);
    double s = vf_uf2("sigma_photon", v * E, A);
    vf_assume(s > 0);
    double H = 0;
    if (hard && !(E < 1e5) && !(v < 1e-7)) {
        static const std::vector<double> lE = { 3, 4, 5, 6, 7, 8, 9 };
        double pw = 1;
        for (size_t i = 0; i < T.size(); i++) { H += pw * table(lE, T[i], std::log10(E) - 3); pw *= std::log10(v); }
        H /= v;
    }
    vf_cover("reached");
    vf_assert_eq_tol(f.DifferentialCrossSection(p, c, E, v), NA / A * sq(z) * (bezrukov_bugaev(m, v, A, s, shadow(c, s)) + A * 1e-30 * H), "real photon cross section", 1e-3);
    vf_assert_eq(f.CalculateParametrization(c, E), vf_uf2("sigma_photon", E, A), "photon-nucleon cross section of the model");
}
VF_CONTRACT(real_photon_soft) { real_photon(0); }
VF_CONTRACT(real_photon_hard_muon) { real_photon(1); }
VF_CONTRACT(real_photon_hard_tau) { real_photon(2); }
