// VF-SOURCES: particle/Particle.cxx particle/ParticleDef.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx Constants.cxx Logging.cxx methods.cxx decay/DecayTable.cxx decay/DecayChannel.cxx decay/StableChannel.cxx
#include "common.hpp"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"

static Cartesian3D vec(const char* x, const char* y, const char* z) { return Cartesian3D(vf_real(x, -1e3, 1e3), vf_real(y, -1e3, 1e3), vf_real(z, -1e3, 1e3)); }
static bool same(const Cartesian3D& a, const Cartesian3D& b) { return a.GetX() == b.GetX() && a.GetY() == b.GetY() && a.GetZ() == b.GetZ(); }
static const ParticleType TYPES[] = { ParticleType::MuMinus, ParticleType::EPlus, ParticleType::TauMinus, ParticleType::Gamma, ParticleType::KPlus, ParticleType::NuMu };
static double mass_of(int i) { static const double* M[] = { &MMU, &ME, &MTAU, nullptr, &MKAON, nullptr }; return M[i] ? *M[i] : 0; }

VF_CONTRACT(state_constructors) {
    auto p = vec("x", "y", "z"), d = vec("dx", "dy", "dz");
    double e = vf_real("E", 1, 1e9), t = vf_real("t", 0, 1e3), l = vf_real("l", 0, 1e6);
    int i = vf_choose("type", 6);
    bool typed = vf_bool("typed");
    ParticleState s = typed ? ParticleState(TYPES[i], p, d, e, t, l) : ParticleState(p, d, e, t, l);
    vf_assert(s.type == (typed ? (int)TYPES[i] : (int)ParticleType::None), "type is stored");
    vf_assert(same(s.position, p), "position is stored");
    vf_assert(same(s.direction, d), "direction is stored");
    vf_assert_eq(s.energy, e, "energy is stored");
    vf_assert_eq(s.time, t, "time is stored");
    vf_assert_eq(s.propagated_distance, l, "distance is stored");
    s.SetType(ParticleType::MuPlus);
    vf_assert(s.type == -13, "SetType");
}
VF_CONTRACT(state_default) {
    ParticleState s;
    vf_assert(s.type == 0, "no type");
    vf_assert(same(s.position, Cartesian3D(0, 0, 0)), "at the origin");
    vf_assert(same(s.direction, Cartesian3D(0, 0, 0)), "without direction");
    vf_assert(s.energy == 0 && s.time == 0 && s.propagated_distance == 0, "all zero");
}
VF_CONTRACT(state_equality) {
    auto p = vec("x", "y", "z"), d = vec("dx", "dy", "dz");
    double e = vf_real("E", 1, 1e9), t = vf_real("t", 0, 1e3), l = vf_real("l", 0, 1e6), g = vf_real("delta", 0.5, 1);
    vf_assume(g > 0);
    ParticleState a(ParticleType::MuMinus, p, d, e, t, l), b(a);
    vf_assert(a == b, "a copy is equal");
    vf_assert(!(a != b), "a copy is not unequal");
    ParticleState c; c = a;
    vf_assert(c == a, "an assigned state is equal");
    switch (vf_choose("field", 10)) {
    case 0: b.type = 11; break;
    case 1: b.position.SetX(b.position.GetX() + g); break;
    case 2: b.position.SetY(b.position.GetY() + g); break;
    case 3: b.position.SetZ(b.position.GetZ() + g); break;
    case 4: b.direction.SetX(b.direction.GetX() + g); break;
    case 5: b.direction.SetY(b.direction.GetY() + g); break;
    case 6: b.direction.SetZ(b.direction.GetZ() + g); break;
    case 7: b.energy += g; break;
    case 8: b.time += g; break;
    case 9: b.propagated_distance += g; break;
    }
    vf_assert(!(a == b), "states that differ in one field are unequal");
    vf_assert(a != b, "states that differ in one field are unequal (!=)");
}
VF_CONTRACT(set_momentum) {
    ParticleDef::GetParticleDefForType(11);
    ParticleState s;
    int i = vf_choose("type", 6);
    s.SetType(TYPES[i]);
    double p = vf_real("p", 0, 1e9), m = mass_of(i);
    vf_assume(p >= 0);
    s.SetMomentum(p);
    vf_assert_eq(s.energy * s.energy, p * p + m * m, "E^2 = p^2 + m^2 after setting the momentum");
    vf_assert(s.energy >= 0, "energy is not negative");
    vf_assert(s.energy >= m, "energy is at least the rest mass");
    vf_assert_eq(s.GetMomentum(), p, "the momentum that was set is read back");
}
VF_CONTRACT(get_momentum) {
    ParticleDef::GetParticleDefForType(11);
    ParticleState s;
    int i = vf_choose("type", 6);
    s.SetType(TYPES[i]);
    double m = mass_of(i);
    s.energy = vf_real("E", 2000, 1e9);
    vf_assume(s.energy >= m); vf_assume(s.energy >= 0);
    double p = s.GetMomentum();
    vf_assert_eq(p * p, s.energy * s.energy - m * m, "p^2 = E^2 - m^2");
    vf_assert(p >= 0, "momentum is not negative");
}
VF_CONTRACT(state_definition) {
    ParticleDef::GetParticleDefForType(11);
    ParticleState s;
    int i = vf_choose("type", 6);
    s.SetType(TYPES[i]);
    ParticleDef d = s.GetParticleDef();
    vf_assert(d.particle_type == (int)TYPES[i], "the definition of the state's type");
    vf_assert_eq(d.mass, mass_of(i), "mass of the state's type");
}
VF_CONTRACT(stochastic_loss) {
    auto p = vec("x", "y", "z"), d = vec("dx", "dy", "dz");
    double v = vf_real("loss", 1, 1e9), t = vf_real("t", 0, 1e3), l = vf_real("l", 0, 1e6), e = vf_real("E", 1, 1e9);
    StochasticLoss s((int)InteractionType::Epair, v, p, d, t, l, e, 77);
    vf_assert(s.type == 1000000004, "loss type"); vf_assert_eq(s.energy, v, "lost energy"); vf_assert(same(s.position, p), "loss position"); vf_assert(same(s.direction, d), "loss direction");
    vf_assert_eq(s.time, t, "loss time"); vf_assert_eq(s.propagated_distance, l, "loss distance"); vf_assert_eq(s.parent_particle_energy, e, "parent energy"); vf_assert(s.target_hash == 77, "loss target");
    StochasticLoss u(5, v, p, d, t, l, e);
    vf_assert(u.target_hash == 0, "no target by default");
}
VF_CONTRACT(continuous_loss) {
    auto p = vec("x", "y", "z"), d = vec("dx", "dy", "dz"), q = vec("x2", "y2", "z2"), f = vec("dx2", "dy2", "dz2");
    double v = vf_real("loss", 1, 1e9), t = vf_real("t", 0, 1e3), u = vf_real("t2", 0, 1e6), e = vf_real("E", 1, 1e9);
    ContinuousLoss s(v, e, p, q, d, f, t, u);
    vf_assert(s.type == (int)InteractionType::ContinuousEnergyLoss, "loss type");
    vf_assert_eq(s.energy, v, "lost energy"); vf_assert_eq(s.parent_particle_energy, e, "parent energy");
    vf_assert(same(s.start_position, p), "start position"); vf_assert(same(s.end_position, q), "end position");
    vf_assert(same(s.direction_initial, d), "initial direction"); vf_assert(same(s.direction_final, f), "final direction");
    vf_assert_eq(s.time_initial, t, "initial time"); vf_assert_eq(s.time_final, u, "final time");
}
VF_CONTRACT(state_spherical_direction) {
    auto p = vec("x", "y", "z");
    double r = vf_real("r", 0.5, 2), a = vf_real("azimuth", 0, 6), z = vf_real("zenith", 0, 3);
    ParticleState s(p, Spherical3D(r, a, z), 10, 0, 0);
    vf_assert_eq(s.direction.GetX(), r * std::cos(a) * std::sin(z), "x of a direction given in spherical coordinates");
    vf_assert_eq(s.direction.GetY(), r * std::sin(a) * std::sin(z), "y of a direction given in spherical coordinates");
    vf_assert_eq(s.direction.GetZ(), r * std::cos(z), "z of a direction given in spherical coordinates");
}
