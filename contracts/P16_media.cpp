// VF-SOURCES: medium/Components.cxx medium/Medium.cxx medium/MediumFactory.cxx Constants.cxx Logging.cxx methods.cxx
// VF-BOUNDED: [in=medium_.*] media of one to three components
// VF-REPLACE: PROPOSAL::Medium::X0_inv\(.*\) => vfs_x0inv [in=vfc_medium_derived]
// VF-ASSUME: masses and lengths up to the stated sizes; component lists of length 1 to 3 (medium_derived), the sums being unrolled
#include "common.hpp"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/methods.h"
#include <vector>
#include <cstring>

// Tsai's inverse radiation length of one element (Rev. Mod. Phys. 46, B21, table B2)
static double x0inv(double Z, double M) {
    double a2 = sq(ALPHA * Z);
    double f = a2 * (1 / (1 + a2) + 0.20206 - 0.0369 * a2 + 0.0083 * sq(a2) - 0.002 * cube(a2));
    double L = std::log(184.15) - std::log(Z) / 3, Lp = std::log(1194.) - 2 * std::log(Z) / 3;
    if (Z == 1) { L = 5.31; Lp = 6.144; }
    if (Z == 2) { L = 4.79; Lp = 5.621; }
    if (Z == 3) { L = 4.74; Lp = 5.805; }
    if (Z == 4) { L = 4.71; Lp = 5.924; }
    return 4 * ALPHA * sq(RE) * NA * (sq(Z) * (L - f) + Z * Lp) / M;
}
extern "C" double vfs_x0inv(Medium*, unsigned int Z, double M) {
    if (!vf_symbolic()) return x0inv(Z, M);
    double r = vf_uf2("x0inv", Z, M);
    vf_assume(r > 0);
    return r;
}
static Component element(int i) {
    static const char* N[3][3] = { { "Z1", "A1", "n1" }, { "Z2", "A2", "n2" }, { "Z3", "A3", "n3" } };
    static const double zz[3] = { 8, 1, 26 };
    static const char* M[3] = { "M1", "M2", "M3" };
    Component c;
    c.name_ = "el";
    c.nucCharge_ = zz[i];
    c.atomicNum_ = vf_real(N[i][1], 1, 238);
    c.atomInMolecule_ = vf_real(N[i][2], 1, 4);
    c.averageNucleonWeight_ = vf_real(M[i], 900, 950);
    c.hash = 11 + i;
    vf_assume(c.atomicNum_ > 0); vf_assume(c.atomInMolecule_ > 0); vf_assume(c.averageNucleonWeight_ > 0);
    return c;
}
VF_CONTRACT(medium_derived) {
    int n = 1 + vf_choose("components", 3);
    std::vector<Component> cs;
    double sz = 0, sa = 0, sm = 0, sx = 0;
    for (int i = 0; i < n; i++) {
        cs.push_back(element(i));
        const Component& c = cs.back();
        sz += c.atomInMolecule_ * c.nucCharge_;
        sa += c.atomInMolecule_ * c.atomicNum_;
        sm += c.atomInMolecule_ * c.atomicNum_ * c.averageNucleonWeight_;
        sx += c.atomInMolecule_ * c.atomicNum_ * vfs_x0inv(nullptr, (unsigned)c.nucCharge_, c.atomicNum_);
    }
    double rho = vf_real("rho", 0.1, 20);
    double I = vf_real("I", 10, 900), C = vf_real("C", -11, 0), a = vf_real("a", 0, 1), m = vf_real("m", 2, 6), x0 = vf_real("X0", 0, 2), x1 = vf_real("X1", 2, 5), d0 = vf_real("d0", 0, 1);
    vf_assume(rho > 0);
    alignas(Medium) static char buf[sizeof(Medium)];
    Medium& M = *(Medium*)buf;
    new (&M.components_) std::vector<Component>(cs);
    M.massDensity_ = rho;
    M.init();
    vf_assert(M.GetNumComponents() == n, "number of components");
    vf_assert_eq(M.GetSumCharge(), sz, "sum of charges");
    vf_assert_eq(M.GetSumNucleons(), sa, "sum of nucleons");
    vf_assert_eq(M.GetZA(), sz / sa, "Z/A");
    vf_assert_eq(M.GetMolDensity(), rho * NA / sa, "molecule density");
    vf_assert_eq(M.GetMM(), sm / sa, "mean nucleon weight");
    vf_assert_eq(M.GetRadiationLength(), sa / sx, "radiation length");
    vf_assert_eq(calculate_proton_massnumber_fraction(cs), sz / sa, "proton to nucleon fraction");
}
VF_CONTRACT(medium_constructor) {
    double rho = vf_real("rho", 0.1, 20);
    double I = vf_real("I", 10, 900), C = vf_real("C", -11, 0), a = vf_real("a", 0, 1), m = vf_real("m", 2, 6), x0 = vf_real("X0", 0, 2), x1 = vf_real("X1", 2, 5), d0 = vf_real("d0", 0, 1);
    vf_assume(rho > 0);
    std::vector<Component> cs; cs.push_back(element(0));
    Medium M("some", I, C, a, m, x0, x1, d0, rho, cs);
    vf_assert(M.GetName() == "some", "name");
    vf_assert_eq(M.GetI(), I, "ionization potential"); vf_assert_eq(M.GetC(), C, "C"); vf_assert_eq(M.GetA(), a, "a"); vf_assert_eq(M.GetM(), m, "m");
    vf_assert_eq(M.GetX0(), x0, "X0"); vf_assert_eq(M.GetX1(), x1, "X1"); vf_assert_eq(M.GetD0(), d0, "d0"); vf_assert_eq(M.GetMassDensity(), rho, "mass density");
    vf_assert(M.GetComponents().size() == 1, "component list");
    vf_assert_eq(M.GetRadiationLength(), 1 / x0inv(8, cs[0].atomicNum_), "radiation length of a single element");
    Medium F = Medium::GetMediumForHash(M.GetHash());
    vf_assert(F == M, "a constructed medium is found under its hash");
}
VF_CONTRACT(radiation_length_element) {
    int Z = 1 + vf_choose("Z", 100);
    double M = vf_real("A", 1, 240);
    vf_assume(M > 0);
    alignas(Medium) static char buf[sizeof(Medium)];
    vf_assert_eq(((Medium*)buf)->X0_inv(Z, M), x0inv(Z, M), "inverse radiation length (Tsai)");
}
static double log_constant(int z) {
    static const double low[22] = { 202.4, 151.9, 159.9, 172.3, 177.9, 178.3, 176.6, 173.4, 170.0, 165.8, 165.8, 167.1, 169.1, 170.8, 172.2, 173.4, 174.3, 174.8, 175.1, 175.6, 176.2, 176.8 };
    if (z <= 22) return low[z - 1];
    switch (z) {
    case 26: return 175.8; case 29: return 173.1; case 32: return 173.0; case 35: return 173.5; case 42: return 175.9;
    case 50: return 177.4; case 53: return 178.6; case 74: return 177.6; case 82: return 178.0; case 92: return 179.8;
    }
    return 182.7;
}
static double wood_saxon(double A) {
    double q = std::pow(A, 1. / 3.), r = 1.12 * q - 0.86 / q, a = 0.54;
    double I = a * r * r * std::log(2.) + sq(a * PI) * r / 6 + 1.5 * cube(a) * ZETA3; // int_r0^inf r^2 / (1 + exp((r - r0)/a)) dr
    return 1 - 4 * PI * 0.17 * I / A;
}
static void element_is(const Component& c, const char* name, double Z, double A, double n) {
    vf_assert(c.GetName() == name, "element name");
    vf_assert_eq(c.GetNucCharge(), Z, "charge number");
    vf_assert_eq(c.GetAtomicNum(), A, "atomic mass");
    vf_assert_eq(c.GetAtomInMolecule(), n, "atoms in the molecule");
    vf_assert_eq(c.GetLogConstant(), log_constant((int)(Z + 0.5)), "radiation logarithm B");
    vf_assert_eq(c.GetBPrime(), Z == 1 ? 446 : 1429, "radiation logarithm B'");
    vf_assert_eq(c.GetAverageNucleonWeight(), (Z * MP + (A - Z) * MN) / A, "mean nucleon mass");
    vf_assert_eq(c.GetWoodSaxon(), Z == 1 ? 0 : wood_saxon(A), "Woods-Saxon factor");
}
VF_CONTRACT(component_constructor) {
    int z = 1 + vf_choose("Z", 100);
    double A = vf_real("A", 1, 240), n = vf_real("n", 1, 10);
    vf_assume(A > 0); vf_assume(n > 0);
    element_is(Component("some", z, A, n), "some", z, A, n);
}
VF_CONTRACT(component_fractional_charge) {
    int z = 1 + vf_choose("Z", 30);
    double f = vf_real("f", -0.49, 0.49);
    vf_assume(f > -0.5); vf_assume(f < 0.5); vf_assume(f != 0); vf_assume(z + f > 0);
    double A = vf_real("A", 1, 240), Z = z + f;
    vf_assume(A > 0);
    Component c("some", Z, A, 1);
    vf_assert_eq(c.GetLogConstant(), log_constant(z), "radiation logarithm of the nearest charge number");
    vf_assert_eq(c.GetBPrime(), z == 1 ? 446 : 1429, "inelastic radiation logarithm of the nearest charge number");
    vf_assert_eq(c.GetAverageNucleonWeight(), (Z * MP + (A - Z) * MN) / A, "mean nucleon mass");
    vf_assert_eq(c.GetWoodSaxon(), wood_saxon(A), "Woods-Saxon factor");
}
VF_CONTRACT(component_lookup) {
    Component a("some", 8, vf_real("A", 1, 240), 1);
    Component f = Component::GetComponentForHash(a.GetHash());
    vf_assert(f == a, "a constructed element is found under its hash");
}
VF_CONTRACT(component_equality) {
    Component a; a.name_ = "e";
    a.nucCharge_ = vf_real("Z", 1, 92); a.atomicNum_ = vf_real("A", 1, 238); a.atomInMolecule_ = vf_real("n", 1, 4); a.logConstant_ = vf_real("B", 140, 210);
    a.bPrime_ = vf_real("Bp", 400, 1500); a.averageNucleonWeight_ = vf_real("M", 900, 950); a.wood_saxon_ = vf_real("r0", 1, 8); a.hash = 1;
    Component b = a;
    vf_assert(a == b, "a copy is equal");
    vf_assert(!(a != b), "a copy is not unequal");
    double d = vf_real("d", 0.1, 1);
    vf_assume(d > 0);
    switch (vf_choose("field", 6)) {
    case 0: b.name_ = "f"; break;
    case 1: b.nucCharge_ += d; break;
    case 2: b.atomicNum_ += d; break;
    case 3: b.atomInMolecule_ += d; break;
    case 4: b.logConstant_ += d; break;
    case 5: b.hash = 2; break;
    }
    vf_assert(!(a == b), "elements that differ in a field are unequal");
    vf_assert(a != b, "elements that differ in a field are unequal (!=)");
}
VF_CONTRACT(elements) {
    double n = vf_real("n", 0.1, 10);
    vf_assume(n > 0);
    bool def = vf_bool("default_count");
    double k = def ? 1 : n;
#define EL(C, N, Z, A) element_is(def ? Components::C() : Components::C(n), N, Z, A, k)
    switch (vf_choose("element", 17)) {
    case 0: element_is(def ? Components::Hydrogen() : Components::Hydrogen(n), "H", 1, 1.00794, def ? 2 : n); break;
    case 1: EL(Carbon, "C", 6, 12.0011); break;
    case 2: EL(Nitrogen, "N", 7, 14.0067); break;
    case 3: EL(Oxygen, "O", 8, 15.9994); break;
    case 4: EL(Sodium, "Na", 11, 22.989770); break;
    case 5: EL(Magnesium, "Mg", 12, 24.31); break;
    case 6: EL(Sulfur, "S", 16, 32.07); break;
    case 7: EL(Chlorine, "Cl", 17, 35.4527); break;
    case 8: EL(Argon, "Ar", 18, 39.948); break;
    case 9: EL(Potassium, "K", 19, 39.10); break;
    case 10: EL(Calcium, "Ca", 20, 40.08); break;
    case 11: EL(Iron, "Fe", 26, 55.845); break;
    case 12: EL(Copper, "Cu", 29, 63.546); break;
    case 13: EL(Lead, "Pb", 82, 207.2); break;
    case 14: EL(Uranium, "U", 92, 238.0289); break;
    case 15: EL(StandardRock, "StandardRock", 11, 22.0); break;
    case 16: EL(FrejusRock, "FrejusRock", 10.12, 20.34); break;
    }
}
struct Entry { const char* name; double I, C, a, m, X0, X1, d0, rho; };
static const Entry T[] = {
    { "water", 79.7, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1.0 },
    { "water", 75.0, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1.0 },
    { "ice", 79.7, -3.5873, 0.09116, 3.4773, 0.2586, 2.8190, 0, 0.918 },
    { "ice", 75.0, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 0.917 },
    { "salt", 175.3, -4.5041, 0.1632, 3, 0.2, 3.0, 0, 2.323 },
    { "standardrock", 136.4, -3.7738, 0.08301, 3.4120, 0.0492, 3.0549, 0, 2.650 },
    { "frejusrock", 149.0, -5.053, 0.078, 3.645, 0.288, 3.196, 0, 2.740 },
    { "iron", 286.0, -4.2911, 0.14680, 2.9632, -0.0012, 3.1531, 0.12, 7.874 },
    { "hydrogen", 21.8, -3.0977, 0.13483, 5.6249, 0.44, 1.8856, 0, 0.07080 },
    { "lead", 823.0, -6.2018, 0.09359, 3.1608, 0.3776, 3.8073, 0.14, 11.350 },
    { "copper", 322.0, -4.4190, 0.14339, 2.9044, -0.0254, 3.2792, 0.08, 8.960 },
    { "uranium", 890.0, -5.8694, 0.19677, 2.8171, 0.2260, 3.3721, 0.14, 18.950 },
    { "air", 85.7, -10.5961, 0.10914, 3.3994, 1.7418, 4.2759, 0, 1.205e-3 },
    { "paraffin", 55.9, -2.9551, 0.1209, 3.4288, 0.1289, 2.5084, 0, 0.93 },
    { "antareswater", 75.0, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1.03975 },
    { "cascadiabasinwater", 75.0, -3.5017, 0.09116, 3.4773, 0.24, 2.8004, 0, 1.0400322 },
    { "liquidargon", 188.0, -5.2146, 0.19559, 3.0, 0.2, 3.0, 0, 1.396 },
    { "calciumcarbonate", 136.4, -3.7738, 0.08301, 3.4120, 0.0492, 3.0549, 0, 2.650 },
};
struct Part { double Z, A, n; };
static const Part COMP[18][9] = {
    { { 1, 1.00794, 2 }, { 8, 15.9994, 1 } }, { { 1, 1.00794, 2 }, { 8, 15.9994, 1 } }, { { 1, 1.00794, 2 }, { 8, 15.9994, 1 } }, { { 1, 1.00794, 2 }, { 8, 15.9994, 1 } },
    { { 11, 22.98977, 1 }, { 17, 35.4527, 1 } }, { { 11, 22, 1 } }, { { 10.12, 20.34, 1 } }, { { 26, 55.845, 1 } }, { { 1, 1.00794, 2 } }, { { 82, 207.2, 1 } }, { { 29, 63.546, 1 } }, { { 92, 238.0289, 1 } },
    { { 7, 14.0067, 156.2 }, { 8, 15.9994, 42 }, { 18, 39.948, 0.9 } }, { { 6, 12.0011, 25 }, { 1, 1.00794, 52 } },
    { { 1, 1.00794, 2 }, { 8, 15.9994, 1.00884 }, { 11, 22.98977, 0.00943 }, { 19, 39.10, 0.000209 }, { 12, 24.31, 0.001087 }, { 20, 40.08, 0.000209 }, { 17, 35.4527, 0.01106 }, { 16, 32.07, 0.00582 } },
    { { 1, 1.00794, 2 }, { 8, 15.9994, 1.0021 }, { 11, 22.98977, 8.7174e-3 }, { 12, 24.31, 9.8180e-4 }, { 20, 40.08, 1.9113e-4 }, { 19, 39.10, 1.8975e-4 }, { 17, 35.4527, 1.0147e-2 }, { 16, 32.07, 5.2487e-4 } },
    { { 18, 39.948, 1 } }, { { 20, 40.08, 1 }, { 6, 12.0011, 1 }, { 8, 15.9994, 3 } },
};
static void medium_is(const Medium& M, int i) {
    const Entry& e = T[i];
    vf_assert(M.GetName() == e.name, "medium name");
    vf_assert_eq(M.GetI(), e.I, "ionization potential of the medium"); vf_assert_eq(M.GetC(), e.C, "C of the medium"); vf_assert_eq(M.GetA(), e.a, "a of the medium");
    vf_assert_eq(M.GetM(), e.m, "m of the medium"); vf_assert_eq(M.GetX0(), e.X0, "X0 of the medium"); vf_assert_eq(M.GetX1(), e.X1, "X1 of the medium");
    vf_assert_eq(M.GetD0(), e.d0, "d0 of the medium"); vf_assert_eq(M.GetMassDensity(), e.rho, "mass density of the medium");
    int n = 0; while (n < 9 && COMP[i][n].Z > 0) n++;
    auto cs = M.GetComponents();
    vf_assert(M.GetNumComponents() == n, "number of elements of the medium");
    vf_assert((int)cs.size() == n, "element list of the medium");
    double sz = 0, sa = 0, sx = 0;
    for (int k = 0; k < n && k < (int)cs.size(); k++) {
        vf_assert_eq(cs[k].GetNucCharge(), COMP[i][k].Z, "charge number of an element of the medium");
        vf_assert_eq(cs[k].GetAtomicNum(), COMP[i][k].A, "atomic mass of an element of the medium");
        vf_assert_eq(cs[k].GetAtomInMolecule(), COMP[i][k].n, "share of an element of the medium");
        sz += COMP[i][k].n * COMP[i][k].Z; sa += COMP[i][k].n * COMP[i][k].A; sx += COMP[i][k].n * COMP[i][k].A * x0inv((int)COMP[i][k].Z, COMP[i][k].A);
    }
    vf_assert_eq(M.GetZA(), sz / sa, "Z/A of the medium");
    vf_assert_eq(M.GetMolDensity(), e.rho * NA / sa, "molecule density of the medium");
    vf_assert_eq(M.GetRadiationLength(), sa / sx, "radiation length of the medium");
}
VF_CONTRACT(media) {
    switch (vf_choose("medium", 19)) {
    case 0: medium_is(PDG2020::Water(), 0); break; case 1: medium_is(PDG2001::Water(), 1); break; case 2: medium_is(PDG2020::Ice(), 2); break;
    case 3: medium_is(PDG2001::Ice(), 3); break; case 4: medium_is(Salt(), 4); break; case 5: medium_is(StandardRock(), 5); break;
    case 6: medium_is(FrejusRock(), 6); break; case 7: medium_is(Iron(), 7); break; case 8: medium_is(Hydrogen(), 8); break; case 9: medium_is(Lead(), 9); break;
    case 10: medium_is(Copper(), 10); break; case 11: medium_is(Uranium(), 11); break; case 12: medium_is(Air(), 12); break; case 13: medium_is(Paraffin(), 13); break;
    case 14: medium_is(AntaresWater(), 14); break; case 15: medium_is(CascadiaBasinWater(), 15); break; case 16: medium_is(LiquidArgon(), 16); break;
    case 17: medium_is(CalciumCarbonate(), 17); break; case 18: medium_is(Water(), 0); break;
    }
}
VF_CONTRACT(medium_equality) {
    Medium& a = any_medium();
    for (int i = 0; i < 2; i++) { a.components_.push_back(element(i)); a.numComponents_++; }
    Medium b(a);
    vf_assert(a == b, "a copy is an equal medium");
    vf_assert(!(a != b), "a copy is not unequal (!=)");
    double d = vf_real("d", 0.1, 1);
    vf_assume(d > 0);
    switch (vf_choose("field", 19)) {
    case 0: b.name_ = "f"; break; case 1: b.sumCharge_ += d; break; case 2: b.ZA_ += d; break; case 3: b.I_ += d; break; case 4: b.C_ += d; break;
    case 5: b.a_ += d; break; case 6: b.m_ += d; break; case 7: b.X0_ += d; break; case 8: b.X1_ += d; break; case 9: b.d0_ += d; break; case 10: b.massDensity_ += d; break;
    case 11: b.molDensity_ *= 1 + d; break; case 12: b.radiationLength_ += d; break; case 13: b.MM_ += d; break; case 14: b.sumNucleons_ += d; break;
    case 15: b.components_[0].atomicNum_ += d; break; case 16: b.components_[1].atomInMolecule_ += d; break; case 17: b.components_.pop_back(); b.numComponents_--; break;
    case 18: b.components_.push_back(element(2)); b.numComponents_++; break;
    }
    vf_assert(!(a == b), "media that differ in a constant or the composition are unequal");
    vf_assert(a != b, "media that differ in a constant or the composition are unequal (!=)");
}
VF_CONTRACT(medium_hash) {
    Medium& a = any_medium();
    for (int i = 0; i < 2; i++) { a.components_.push_back(element(i)); a.numComponents_++; }
    vf_assume(a.sumCharge_ > 0); vf_assume(a.C_ < 0); vf_assume(a.a_ > 0); vf_assume(a.m_ > 0); vf_assume(a.X1_ > 0); vf_assume(a.d0_ > 0); vf_assume(a.MM_ > 0); vf_assume(a.X0_ > 0);
    Medium b(a);
    vf_assert(vf_same_int(a.GetHash(), b.GetHash()), "equal media have equal hashes");
}
VF_CONTRACT(medium_by_name) {
    static const char* N[] = { "water", "waterpdg2001", "waterpdg2020", "ice", "icepdg2001", "icepdg2020", "salt", "standardrock", "frejusrock", "iron", "hydrogen", "lead", "copper", "uranium", "air", "paraffin", "antareswater", "cascadiabasinwater", "liquidargon" };
    static const char* U[] = { "Water", "WaterPDG2001", "WATERPDG2020", "IcE", "icePDG2001", "IcePDG2020", "Salt", "StandardRock", "FrejusRock", "Iron", "Hydrogen", "Lead", "Copper", "Uranium", "Air", "Paraffin", "AntaresWater", "CascadiaBasinWater", "LiquidArgon" };
    static const int idx[] = { 0, 1, 0, 2, 3, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 };
    int i = vf_choose("medium", 19);
    medium_is(*CreateMedium(std::string(N[i])), idx[i]);
    medium_is(*CreateMedium(std::string(U[i])), idx[i]);
    medium_is(*CreateMedium((Medium_Type)i), idx[i]);
}
VF_CONTRACT(medium_unknown) {
    bool threw = false;
    try { CreateMedium(std::string("nowater")); } catch (const std::invalid_argument&) { threw = true; }
    vf_assert(threw, "an unknown name is refused");
}
