// VF-SOURCES: particle/ParticleDef.cxx particle/Particle.cxx Constants.cxx Logging.cxx methods.cxx decay/DecayTable.cxx decay/DecayChannel.cxx decay/StableChannel.cxx decay/LeptonicDecayChannel.cxx decay/ManyBodyPhaseSpace.cxx decay/TwoBodyPhaseSpace.cxx
#include "common.hpp"
#include <limits>
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"

// documented (PDG) values: name, mass, lowest energy, lifetime, charge, identifier, weak partner; table 1 muon, 2 tau
struct Row { const char* name; double m, low, tau, q; int id, partner, table; };
static void warm() { ParticleDef::GetParticleDefForType(11); } // the table of definitions is built once, before the cases are split
static const double S = std::numeric_limits<double>::infinity();
static Row row(int i) {
    switch (i) {
    case 0: return { "EMinus", 0.5109989461, 0.5109989461, S, -1, 11, 12, 0 };
    case 1: return { "EPlus", 0.5109989461, 0.5109989461, S, 1, -11, -12, 0 };
    case 2: return { "MuMinus", 105.6583745, 105.6583745, 2.1969811e-6, -1, 13, 14, 1 };
    case 3: return { "MuPlus", 105.6583745, 105.6583745, 2.1969811e-6, 1, -13, -14, 1 };
    case 4: return { "TauMinus", 1776.86, 1776.86, 290.3e-15, -1, 15, 16, 2 };
    case 5: return { "TauPlus", 1776.86, 1776.86, 290.3e-15, 1, -15, -16, 2 };
    case 6: return { "NuE", 0, 0, S, 0, 12, 11, 0 };
    case 7: return { "NuEBar", 0, 0, S, 0, -12, -11, 0 };
    case 8: return { "NuMu", 0, 0, S, 0, 14, 13, 0 };
    case 9: return { "NuMuBar", 0, 0, S, 0, -14, -13, 0 };
    case 10: return { "NuTau", 0, 0, S, 0, 16, 15, 0 };
    case 11: return { "NuTauBar", 0, 0, S, 0, -16, -15, 0 };
    case 12: return { "Gamma", 0, 2 * 0.5109989461, S, 0, 22, 0, 0 };
    case 13: return { "Pi0", 134.9766, 134.9766, 8.52e-17, 0, 111, 0, 0 };
    case 14: return { "PiPlus", 139.57018, 139.57018, 2.6033e-8, 1, 211, 0, 0 };
    case 15: return { "PiMinus", 139.57018, 139.57018, 2.6033e-8, -1, -211, 0, 0 };
    case 16: return { "K0", 497.614, 497.614, -1, 0, 311, 0, 0 };
    case 17: return { "KPlus", 493.677, 493.677, 1.2380e-8, 1, 321, 0, 0 };
    case 18: return { "KMinus", 493.677, 493.677, 1.2380e-8, -1, -321, 0, 0 };
    case 19: return { "StauMinus", 1e5, 1e5, S, -1, 1000015, 0, 0 };
    case 20: return { "StauPlus", 1e5, 1e5, S, 1, -1000015, 0, 0 };
    case 21: return { "Monopole", 1e5, 1e5, S, 68.51799988, 41, 0, 0 };
    case 22: return { "SMPPlus", 1e5, 1e5, S, 1, 9500, 0, 0 };
    default: return { "SMPMinus", 1e5, 1e5, S, -1, -9500, 0, 0 };
    }
}
static ParticleDef predefined(int i) {
    switch (i) {
    case 0: return EMinusDef(); case 1: return EPlusDef(); case 2: return MuMinusDef(); case 3: return MuPlusDef(); case 4: return TauMinusDef(); case 5: return TauPlusDef();
    case 6: return NuEDef(); case 7: return NuEBarDef(); case 8: return NuMuDef(); case 9: return NuMuBarDef(); case 10: return NuTauDef(); case 11: return NuTauBarDef();
    case 12: return GammaDef(); case 13: return Pi0Def(); case 14: return PiPlusDef(); case 15: return PiMinusDef(); case 16: return K0Def(); case 17: return KPlusDef(); case 18: return KMinusDef();
    case 19: return StauMinusDef(); case 20: return StauPlusDef(); case 21: return MonopoleDef(); case 22: return SMPPlusDef(); default: return SMPMinusDef();
    }
}
static void is(const ParticleDef& d, const Row& r) {
    vf_assert(d.name == r.name, "name");
    vf_assert_eq(d.mass, r.m, "mass"); vf_assert_eq(d.low, r.low, "lowest energy"); vf_assert_eq(d.charge, r.q, "charge");
    vf_assert(d.lifetime == r.tau, "lifetime");
    vf_assert(d.particle_type == r.id, "identifier"); vf_assert(d.weak_partner == r.partner, "weak partner");
    vf_assert(&d.hard_component_table == (r.table == 1 ? &HardComponentTables::MuonTable : r.table == 2 ? &HardComponentTables::TauTable : &HardComponentTables::EmptyTable), "hard component table");
}
VF_CONTRACT(predefined) {
    warm();
    int i = vf_choose("particle", 24);
    is(predefined(i), row(i));
}
VF_CONTRACT(lookup) {
    warm();
    int i = vf_choose("particle", 24);
    Row r = row(i);
    ParticleDef d = ParticleDef::GetParticleDefForType(r.id);
    is(d, r);
    vf_assert(d == predefined(i), "lookup by type returns the matching definition");
}
VF_CONTRACT(lookup_unknown) {
    bool threw = false;
    try { ParticleDef::GetParticleDefForType(424242); } catch (const std::invalid_argument&) { threw = true; }
    vf_assert(threw, "an unknown type is refused");
}
VF_CONTRACT(antiparticles) {
    warm();
    static const int P[][2] = { { 0, 1 }, { 2, 3 }, { 4, 5 }, { 6, 7 }, { 8, 9 }, { 10, 11 }, { 14, 15 }, { 17, 18 }, { 19, 20 }, { 22, 23 } };
    int k = vf_choose("pair", 10);
    ParticleDef a = predefined(P[k][0]), b = predefined(P[k][1]);
    vf_assert_eq(a.mass, b.mass, "equal masses"); vf_assert_eq(a.low, b.low, "equal lowest energies"); vf_assert_eq(a.charge, -b.charge, "opposite charges");
    vf_assert(a.lifetime == b.lifetime, "equal lifetimes"); vf_assert(a.particle_type == -b.particle_type, "opposite identifiers"); vf_assert(a.weak_partner == -b.weak_partner, "opposite weak partners");
    vf_assert(&a.hard_component_table == &b.hard_component_table, "same hard component table");
    vf_assert(a != b, "a particle is not its antiparticle");
    vf_assert(a.decay_table.channels_.size() == b.decay_table.channels_.size(), "as many decay channels");
}
VF_CONTRACT(builder) {
    double m = vf_real("mass", 0, 2000), low = vf_real("low", 0, 4000), tau = vf_real("tau", 0, 1), q = vf_real("q", -2, 2);
    ParticleDef d = ParticleDef::Builder().SetName("some").SetMass(m).SetLow(low).SetLifetime(tau).SetCharge(q).SetHardComponentTable(HardComponentTables::TauTable).SetParticleType(4711).SetWeakPartner(ParticleType::NuE).build();
    vf_assert(d.name == "some", "built name"); vf_assert_eq(d.mass, m, "built mass"); vf_assert_eq(d.low, std::max(m, low), "built lowest energy, at least the mass"); vf_assert_eq(d.lifetime, tau, "built lifetime");
    vf_assert_eq(d.charge, q, "built charge"); vf_assert(&d.hard_component_table == &HardComponentTables::TauTable, "built table"); vf_assert(d.particle_type == 4711, "built identifier"); vf_assert(d.weak_partner == 12, "built weak partner");
    ParticleDef r = ParticleDef::GetParticleDefForType(4711);
    vf_assert(r == d, "a built definition can be looked up");
}
VF_CONTRACT(builder_from_definition) {
    warm();
    int i = vf_choose("particle", 24);
    ParticleDef d = predefined(i);
    ParticleDef e = ParticleDef::Builder().SetParticleDef(d).build();
    vf_assert(e == d, "a definition rebuilt from another one is equal to it");
    is(e, row(i));
    vf_assert(e.GetHash() == d.GetHash(), "equal definitions have equal hashes");
}
static ParticleDef some(int type) {
    double m = vf_real("mass", 0, 2000), low = vf_real("low", 0, 4000), tau = vf_real("tau", 0, 1), q = vf_real("q", -2, 2);
    return ParticleDef("some", m, low, tau, q, HardComponentTables::MuonTable, DecayTable().addChannel(1.1, StableChannel()), type, 3);
}
VF_CONTRACT(equality) {
    warm();
    ParticleDef a = some(5001), b(a);
    vf_assert(a == b, "a copy is equal"); vf_assert(!(a != b), "a copy is not unequal");
    vf_assert(vf_same_int(a.GetHash(), b.GetHash()), "equal definitions have equal hashes");
    vf_assert(vf_same_int(std::hash<ParticleDef>()(a), std::hash<ParticleDef>()(b)), "equal definitions have equal standard hashes");
    double d = vf_real("d", 0.1, 1);
    vf_assume(d > 0);
    int f = vf_choose("field", 9);
    ParticleDef c(f == 0 ? "other" : "some", a.mass + (f == 1 ? d : 0), a.low + (f == 2 ? d : 0), a.lifetime + (f == 3 ? d : 0), a.charge + (f == 4 ? d : 0),
        f == 5 ? HardComponentTables::TauTable : HardComponentTables::MuonTable,
        f == 6 ? DecayTable().addChannel(1.0, TwoBodyPhaseSpace(EMinusDef(), NuEDef())) : DecayTable().addChannel(1.1, StableChannel()), 5002, f == 8 ? 4 : 3);
    if (f != 7) const_cast<int&>(c.particle_type) = a.particle_type;
    vf_assert(!(a == c), "definitions that differ in a field are unequal");
    vf_assert(a != c, "definitions that differ in a field are unequal (!=)");
}
VF_CONTRACT(conflicting_registration) {
    ParticleDef a = some(6001);
    double d = vf_real("d", -1, 1);
    int f = vf_choose("field", 8);
    bool threw = false;
    try {
        ParticleDef(f == 0 ? "other" : "some", a.mass + (f == 1 ? d : 0), a.low + (f == 2 ? d : 0), a.lifetime + (f == 3 ? d : 0), a.charge + (f == 4 ? d : 0),
            f == 5 ? HardComponentTables::TauTable : HardComponentTables::MuonTable,
            f == 6 ? DecayTable().addChannel(1.0, TwoBodyPhaseSpace(EMinusDef(), NuEDef())) : DecayTable().addChannel(1.1, StableChannel()), 6001, f == 7 ? 4 : 3);
    } catch (const std::invalid_argument&) { threw = true; }
    bool differs = (f >= 1 && f <= 4) ? !(d == 0) : true;
    vf_assert(threw == differs, "a second, different definition for the same identifier is refused");
    ParticleDef kept = ParticleDef::GetParticleDefForType(6001);
    vf_assert(kept == a, "the first definition stays registered");
}
VF_CONTRACT(decay_tables) {
    warm();
    int i = vf_choose("particle", 24);
    ParticleDef d = predefined(i);
    const auto& ch = d.decay_table.channels_;
    double sum = 0;
    for (auto& c : ch) sum += c.first;
    if (i == 4 || i == 5) {
        vf_assert(ch.size() == 10, "number of decay channels");
        vf_assert_eq(sum, 0.1737 + 0.1783 + 0.1153 + 0.2595 + 0.0952 + 0.098 + 0.0457 + 0.0119 + 0.01 + 0.00349, "sum of branching ratios");
        std::vector<double> known = { 0.00349, 0.01, 0.0119, 0.0457, 0.0952, 0.098, 0.1153, 0.1737, 0.1783, 0.2595 };
        int k = 0;
        for (auto& c : ch) vf_assert_eq(c.first, known[k++], "branching ratio");
    } else if (i == 2 || i == 3) {
        vf_assert(ch.size() == 1, "number of decay channels");
        vf_assert_eq(sum, 1, "sum of branching ratios");
        LeptonicDecayChannelApprox want(i == 2 ? ParticleDef(EMinusDef()) : ParticleDef(EPlusDef()), i == 2 ? ParticleDef(NuMuDef()) : ParticleDef(NuMuBarDef()), i == 2 ? ParticleDef(NuEBarDef()) : ParticleDef(NuEDef()));
        vf_assert(*ch.begin()->second == want, "muon decay into electron and two neutrinos");
    } else {
        vf_assert(ch.size() == 1, "number of decay channels");
        vf_assert(*ch.begin()->second == StableChannel(), "stable particles have the stable channel");
    }
}
