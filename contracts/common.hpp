// Ghost environment shared by the contracts: arbitrary particles, elements and kinematics.
#pragma once
#include "vf.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/decay/DecayTable.h"
#include <cmath>
#include <new>
using namespace PROPOSAL;
#include <set>
// native replay runs many inputs in one process: definitions registered by an earlier input are removed
extern "C" inline __attribute__((used)) void vf_reset() {
    static std::set<int> keep;
    if (keep.empty()) {
        ParticleDef::GetParticleDefForType(11);
        for (auto& p : *ParticleDef::Type_Particle_Map) keep.insert(p.first);
    }
    for (auto i = ParticleDef::Type_Particle_Map->begin(); i != ParticleDef::Type_Particle_Map->end();)
        if (keep.count(i->first)) ++i; else i = ParticleDef::Type_Particle_Map->erase(i);
}

// an arbitrary charged particle: mass m > 0, charge z != 0
static inline ParticleDef any_particle(double mlo = 0.5, double mhi = 2000) {
    double m = vf_real("mass", mlo, mhi), z = vf_real("charge", 1, 3);
    vf_assume(m > 0);
    vf_assume(z > 0);
    return ParticleDef("any", m, m, -1, z, HardComponentTables::EmptyTable, DecayTable(), 0, 0);
}
static inline ParticleDef particle_of_mass(double m, double z = 1, int type = 0) {
    return ParticleDef("any", m, m, -1, z, HardComponentTables::EmptyTable, DecayTable(), type, 0);
}
// an arbitrary element: charge Z >= 1, molar mass A >= 1, any radiation logarithms
static inline Component any_component() {
    Component c;
    c.nucCharge_ = vf_real("Z", 1, 92);
    c.atomicNum_ = vf_real("A", 1, 238);
    c.atomInMolecule_ = vf_real("n", 1, 4);
    c.logConstant_ = vf_real("B", 140, 210);
    c.bPrime_ = vf_real("Bp", 400, 1500);
    c.averageNucleonWeight_ = vf_real("M", 900, 950);
    c.wood_saxon_ = vf_real("r0", 1, 8);
    c.hash = 1;
    vf_assume(c.nucCharge_ >= 1);
    vf_assume(c.atomicNum_ >= 1);
    vf_assume(c.atomInMolecule_ > 0);
    vf_assume(c.logConstant_ > 1);
    vf_assume(c.bPrime_ > 1);
    vf_assume(c.averageNucleonWeight_ > 0);
    vf_assume(c.wood_saxon_ > 0);
    return c;
}
static inline double sq(double x) { return x * x; }
static inline double cube(double x) { return x * x * x; }

// an arbitrary medium: any ionization constants, densities and composition sums
static inline Medium& any_medium() {
    static char buf[sizeof(Medium)];
    Medium& m = *(Medium*)buf;
    new (&m.name_) std::string("any");
    new (&m.components_) std::vector<Component>();
    m.numComponents_ = 0;
    if (!vf_symbolic()) { Component c; c.nucCharge_ = 10 * vf_uf1("ZoverA", 1); c.atomicNum_ = 10; c.atomInMolecule_ = 1; m.components_.push_back(c); }
    m.sumCharge_ = vf_real("sumZ", 1, 100); m.ZA_ = vf_real("ZA", 0.4, 1); m.I_ = vf_real("I", 20, 900);
    m.C_ = vf_real("C", -6, -2); m.a_ = vf_real("a", 0.05, 0.4); m.m_ = vf_real("m_dens", 2.5, 4);
    m.X0_ = vf_real("X0", 0, 0.6); m.X1_ = vf_real("X1", 2, 4); m.d0_ = vf_real("d0", 0.05, 0.4);
    m.massDensity_ = vf_real("rho_m", 0.1, 10); m.molDensity_ = vf_real("mol", 1e20, 1e24);
    m.radiationLength_ = vf_real("X_rad", 5, 70); m.MM_ = vf_real("MM", 900, 950); m.sumNucleons_ = vf_real("sumA", 1, 238);
    vf_assume(m.I_ > 0); vf_assume(m.X0_ < m.X1_); vf_assume(m.d0_ >= 0); vf_assume(m.massDensity_ > 0); vf_assume(m.molDensity_ > 0);
    vf_assume(m.radiationLength_ > 0); vf_assume(m.ZA_ > 0); vf_assume(m.sumNucleons_ > 0);
    return m;
}
