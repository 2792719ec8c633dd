// VF-SOURCES: Constants.cxx crosssection/parametrization/ParamTables.cxx particle/ParticleDef.cxx decay/DecayTable.cxx decay/DecayChannel.cxx decay/StableChannel.cxx decay/LeptonicDecayChannel.cxx decay/ManyBodyPhaseSpace.cxx decay/TwoBodyPhaseSpace.cxx particle/Particle.cxx crosssection/parametrization/Photonuclear.cxx Logging.cxx methods.cxx
// VF-ASSUME: the large model tables are compared with the documented ones by position-weighted sums (relative 1e-11), not entry by entry
#include "vf.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/crosssection/parametrization/ParamTables.h"
#include "PROPOSAL/crosssection/parametrization/Photonuclear.h"
#include <cmath>
#include <limits>
#include <vector>
using namespace PROPOSAL;
typedef std::vector<std::vector<double>> Table;
static bool rel(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::fabs(b); }

// numbers: the defining equations
VF_CONTRACT(numbers) {
    vf_assert(PI == 3.141592653589793, "pi");
    vf_assert(rel(LOG10, std::log(10.), 1e-14), "natural logarithm of ten");
    vf_assert(rel(SQRT2 * SQRT2, 2., 2e-15) && SQRT2 > 0, "square root of two");
    vf_assert(rel(SQRT3 * SQRT3, 3., 2e-15) && SQRT3 > 0, "square root of three");
    vf_assert(rel(SQRTE * SQRTE, std::exp(1.), 2e-15) && SQRTE > 0, "square root of e");
    vf_assert(rel(ZETA3, 1.2020569031595942, 1e-15), "zeta(3)");
    vf_assert(rel(EULER_MASCHERONI, 0.57721566490153287, 1e-15), "Euler constant");
    vf_assert(INF > std::numeric_limits<double>::max(), "positive infinity");
    vf_assert(STABLE_PARTICLE > std::numeric_limits<double>::max(), "a stable particle lives for ever");
}
// recorded values
VF_CONTRACT(constants) {
    vf_assert(IROMB == 5, "IROMB");
    vf_assert(IMAXS == 40, "IMAXS");
    vf_assert(IPREC == 1.e-6, "IPREC");
    vf_assert(rel(IPREC2, 1e-5, 1e-12), "IPREC2");
    vf_assert(COMPUTER_PRECISION == 1.e-10, "COMPUTER_PRECISION");
    vf_assert(HALF_PRECISION == 1.e-5, "HALF_PRECISION");
    vf_assert(GEOMETRY_PRECISION == 1.e-9, "GEOMETRY_PRECISION");
    vf_assert(PARTICLE_POSITION_RESOLUTION == 1.e-3, "PARTICLE_POSITION_RESOLUTION");
    vf_assert(ALPHA == 0.0072973525664, "ALPHA");
    vf_assert(RY == 13.605693009, "RY");
    vf_assert(NA == 6.022140857e23, "NA");
    vf_assert(SPEED == 2.99792458e10, "SPEED");
    vf_assert(IONK == 0.307075, "IONK");
    vf_assert(HBAR == 6.58211928e-22, "HBAR");
    vf_assert(MP == 938.2720813, "MP");
    vf_assert(MN == 939.565413, "MN");
    vf_assert(ME == 0.5109989461, "ME");
    vf_assert(RE == 2.8179403227e-13, "RE");
    vf_assert(MMU == 105.6583745, "MMU");
    vf_assert(LMU == 2.1969811e-6, "LMU");
    vf_assert(MTAU == 1776.86, "MTAU");
    vf_assert(LTAU == 290.3e-15, "LTAU");
    vf_assert(MPI == 139.57018, "MPI");
    vf_assert(LPI == 2.6033e-8, "LPI");
    vf_assert(MPI0 == 134.9766, "MPI0");
    vf_assert(LPI0 == 8.52e-17, "LPI0");
    vf_assert(MKAON0 == 497.614, "MKAON0");
    vf_assert(MKAON == 493.677, "MKAON");
    vf_assert(LKAON == 1.2380e-8, "LKAON");
    vf_assert(MRH == 775.26, "MRH");
    vf_assert(MA1 == 1230, "MA1");
    vf_assert(MRS == 1465, "MRS");
    vf_assert(MMON == 1.e5, "MMON");
    vf_assert(CMON == 68.51799988, "CMON");
    vf_assert(MSMP == 1.e5, "MSMP");
    vf_assert(MSTAU == 1.e5, "MSTAU");
}
VF_CONTRACT(settings) {
    vf_assert(InterpolationSettings::TABLES_PATH == "/tmp", "TABLES_PATH");
    vf_assert(InterpolationSettings::UPPER_ENERGY_LIM == 1.e14, "UPPER_ENERGY_LIM");
    vf_assert(InterpolationSettings::NODES_DEDX == 500, "NODES_DEDX");
    vf_assert(InterpolationSettings::NODES_DE2DX == 200, "NODES_DE2DX");
    vf_assert(InterpolationSettings::NODES_DNDX_E == 100, "NODES_DNDX_E");
    vf_assert(InterpolationSettings::NODES_DNDX_V == 100, "NODES_DNDX_V");
    vf_assert(InterpolationSettings::NODES_UTILITY == 500, "NODES_UTILITY");
    vf_assert(InterpolationSettings::NODES_RATE_INTERPOLANT == 10000, "NODES_RATE_INTERPOLANT");
    vf_assert(PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS == 200, "ADVANCE_PARTICLE_MAX_STEPS");
}
// relations between the constants
VF_CONTRACT(relations) {
    vf_assert(rel(RE, ALPHA * HBAR * SPEED / ME, 1e-7), "classical electron radius");
    vf_assert(rel(RY, ALPHA * ALPHA * ME * 1e6 / 2, 1e-7), "Rydberg energy");
    vf_assert(rel(IONK, 4 * PI * NA * RE * RE * ME, 1e-6), "ionization constant");
    vf_assert(rel(HALF_PRECISION * HALF_PRECISION, COMPUTER_PRECISION, 1e-12), "half precision");
    vf_assert(rel(IPREC2, 10 * IPREC, 1e-12), "coarse integration precision");
    vf_assert(rel(CMON, 1 / (2 * ALPHA), 1e-8), "Dirac charge of the monopole");
    vf_assert(0 < ME && ME < MMU && MMU < MPI0 && MPI0 < MPI && MPI < MKAON && MKAON < MKAON0 && MKAON0 < MP && MP < MN && MN < MTAU, "order of the masses");
    vf_assert(0 < LTAU && LTAU < LPI && LPI0 < LPI && LKAON < LPI && LPI < LMU && LMU < STABLE_PARTICLE, "order of the lifetimes");
}

// tables of the hard component of the photonuclear cross section (Bugaev, Shlepin)
VF_CONTRACT(photonuclear_tables) {
    Table muon { { 7.174409e-4, 1.7132e-3, 4.082304e-3, 8.628455e-3, 0.01244159,
            0.02204591, 0.03228755 },
          { -0.2436045, -0.5756682, -1.553973, -3.251305, -5.976818, -9.495636,
              -13.92918 },
          { -0.2942209, -0.68615, -2.004218, -3.999623, -6.855045, -10.05705,
              -14.37232 },
          { -0.1658391, -0.3825223, -1.207777, -2.33175, -3.88775, -5.636636,
              -8.418409 },
          { -0.05227727, -0.1196482, -0.4033373, -0.7614046, -1.270677,
              -1.883845, -2.948277 },
          { -9.328318e-3, -0.02124577, -0.07555636, -0.1402496, -0.2370768,
              -0.3614146, -0.5819409 },
          { -8.751909e-4, -1.987841e-3, -7.399682e-3, -0.01354059, -0.02325118,
              -0.03629659, -0.059275 },
          { -3.343145e-5, -7.584046e-5, -2.943396e-4, -5.3155e-4, -9.265136e-4,
              -1.473118e-3, -2.419946e-3 } };
    Table tau {
    { -1.269205e-4, -2.843877e-4, -5.761546e-4, -1.195445e-3, -1.317386e-3,
        -9.689228e-15, -6.4595e-15 },
    { -0.01563032, -0.03589573, -0.07768545, -0.157375, -0.2720009, -0.4186136,
        -0.8045046 },
    { 0.04693954, 0.1162945, 0.3064255, 0.7041273, 1.440518, 2.533355,
        3.217832 },
    { 0.05338546, 0.130975, 0.3410341, 0.7529364, 1.425927, 2.284968, 2.5487 },
    { 0.02240132, 0.05496, 0.144945, 0.3119032, 0.5576727, 0.8360727,
        0.8085682 },
    { 4.658909e-3, 0.01146659, 0.03090286, 0.06514455, 0.1109868, 0.1589677,
        0.1344223 },
    { 4.822364e-4, 1.193018e-3, 3.302773e-3, 6.843364e-3, 0.011191, 0.015614,
        0.01173827 },
    { 1.9837e-5, 4.940182e-5, 1.409573e-4, 2.877909e-4, 4.544877e-4,
        6.280818e-4, 4.281932e-4 }
};
    vf_assert(HardComponentTables::EmptyTable.empty(), "no table for other particles");
    vf_assert(HardComponentTables::MuonTable.size() == 8 && HardComponentTables::TauTable.size() == 8, "eight rows");
    bool same_mu = true, same_tau = true;
    for (int i = 0; i < 8; i++) {
        same_mu = same_mu && HardComponentTables::MuonTable[i] == muon[i] && muon[i].size() == 7;
        same_tau = same_tau && HardComponentTables::TauTable[i] == tau[i] && tau[i].size() == 7;
    }
    vf_assert(same_mu, "table of the muon");
    vf_assert(same_tau, "table of the tau");
    vf_assert(crosssection::HardComponent::x == std::vector<double>({ 3, 4, 5, 6, 7, 8, 9 }), "nodes of the tables");
}

static double digest(const Table& t, double& lines, double& columns, bool& ordered, bool& positive) {
    double s = 0; int k = 0; ordered = positive = true; lines = t.size(); columns = t.empty() ? 0 : t[0].size();
    for (auto& r : t) {
        if (r.size() != columns) columns = -1;
        for (size_t i = 0; i < r.size(); i++) {
            k = k % 97 + 1 == 97 ? 0 : k % 97 + 1;
            s += (1 + k) * r[i];
            if (i && !(r[i] > r[i - 1])) ordered = false;
            if (!(r[i] >= 0)) positive = false;
        }
    }
    return s;
}
static void check(const Table& t, double n, double m, double expected, const char* what) {
    double l, c; bool o, p; double d = digest(t, l, c, o, p);
    vf_assert(l == n && c == m, what);
    vf_assert(rel(d, expected, 1e-11), what);
    vf_assert(p, what);
}
static void inelasticity(const Table& t, double expected, const char* what) {
    double l, c; bool o, p; digest(t, l, c, o, p);
    check(t, 111, 100, expected, what);
    vf_assert(o, "inelasticities rise with the probability");
    bool one = true; for (auto& r : t) if (r.back() != 1) one = false;
    vf_assert(one, "largest inelasticity is one");
}
VF_CONTRACT(neutrino_inelasticities_p) { inelasticity(y_nu_p, 49693.9204798571, "y_nu_p"); inelasticity(y_nubar_p, 49693.9204798571, "y_nubar_p"); }
VF_CONTRACT(neutrino_inelasticities_n) { inelasticity(y_nu_n, 49684.9631530093, "y_nu_n"); inelasticity(y_nubar_n, 49684.9631530093, "y_nubar_n"); }
VF_CONTRACT(neutrino_cross_sections_p) { check(sigma_nu_p, 111, 100, 46509871060442.1, "sigma_nu_p"); check(sigma_nubar_p, 111, 100, 78482233294027.3, "sigma_nubar_p"); }
VF_CONTRACT(neutrino_cross_sections_n) { check(sigma_nu_n, 111, 100, 78404711192059.4, "sigma_nu_n"); check(sigma_nubar_n, 111, 100, 46645924212146.1, "sigma_nubar_n"); }
VF_CONTRACT(neutrino_energies) {
    vf_assert(energies.size() == 111, "number of energies");
    bool ok = true; for (int i = 0; i < 111; i++) if (!rel(energies[i], 4 + 0.1 * i, 1e-12)) ok = false;
    vf_assert(ok, "logarithms of the energies in tenths of a decade from 10 TeV");
}
VF_CONTRACT(bremsstrahlung_corrections) {
    check(A_correction, 14, 115, 353100.39638, "A_correction");
    check({ A_energies }, 1, 115, 1795200.0795, "A_energies");
    const double z[14] = { 1, 2, 6, 8, 13, 20, 29, 40, 50, 65, 74, 79, 92, 100 };
    vf_assert(A_logZ.size() == 14, "number of charges");
    bool ok = true; for (int i = 0; i < 14; i++) if (std::fabs(std::exp(A_logZ[i]) - z[i]) > 1e-7 * z[i]) ok = false;
    vf_assert(ok, "logarithms of the nuclear charges");
    bool rise = true; for (size_t i = 1; i < A_energies.size(); i++) if (!(A_energies[i] > A_energies[i - 1])) rise = false;
    vf_assert(rise, "energies rise");
}
VF_CONTRACT(pair_production_corrections) {
    check(photopair_KM_cross, 100, 17, 616407.944584682, "photopair_KM_cross");
    check({ photopair_KM_energies }, 1, 17, 6533.5427360544, "photopair_KM_energies");
    vf_assert(photopair_KM_Z.size() == 100, "number of charges");
    bool ok = true; for (int i = 0; i < 100; i++) if (photopair_KM_Z[i] != i + 1) ok = false;
    vf_assert(ok, "nuclear charges");
}
