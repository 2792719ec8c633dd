// Shared by the decay contracts: random numbers to come, arbitrary products, the contract of Boost.
#pragma once
#include "common.hpp"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
#include "PROPOSAL/math/RandomGenerator.h"
static double g_rnd[16]; static int g_n, g_max; // ghost: the random numbers to come
extern "C" double vfr_random() { return g_rnd[g_n++]; }
static void randoms(int n) {
    static const char* N[] = {"u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7", "u8", "u9", "u10", "u11", "u12", "u13", "u14", "u15"};
    g_n = 0; g_max = n;
    for (int i = 0; i < n; i++) { g_rnd[i] = vf_real(N[i], 0.001, 0.999); vf_assume(g_rnd[i] >= 0); vf_assume(g_rnd[i] < 1); }
    if (!vf_symbolic()) { std::function<double()> f = [] { if (g_n < g_max) return g_rnd[g_n++]; static unsigned long x = 1; x = x * 6364136223846793005ul + 1442695040888963407ul; return (x >> 11) * 0x1p-53; }; RandomGenerator::Get().SetRandomNumberGenerator(f); }
}
static ParticleDef product(int type, double m) { return ParticleDef("p" + std::to_string(type), m, m, -1, 0, HardComponentTables::EmptyTable, DecayTable(), type, 0); }
static Cartesian3D unit(const char* ph, const char* th) {
    double p = vf_real(ph, -3.1, 3.1), t = vf_real(th, 0.01, 3.1);
    return Cartesian3D(std::cos(p) * std::sin(t), std::sin(p) * std::sin(t), std::cos(t));
}
static double mass(const char* n, int massless, double hi) { double m = massless ? 0 : vf_real(n, 1, hi); if (!massless) vf_assume(m > 0); return m; }

// the contract of Boost: the momentum vector of each state is kept as ghost state, indexed by the product
struct Ghost { bool known; double E, d[3], p[3]; };
static Ghost g_state[5];
static Ghost& ghost_of(const ParticleState& s) {
    Ghost& g = g_state[s.type - 900001];
    Cartesian3D d(s.direction);
    if (g.known && vf_same_real(g.E, s.energy) && vf_same_real(g.d[0], d[0]) && vf_same_real(g.d[1], d[1]) && vf_same_real(g.d[2], d[2])) return g;
    double m = ParticleDef::GetParticleDefForType(s.type).mass, q = std::sqrt((s.energy + m) * (s.energy - m));
    g.known = true; g.E = s.energy;
    for (int i = 0; i < 3; i++) { g.d[i] = d[i]; g.p[i] = q * d[i]; }
    return g;
}
extern "C" void vfr_boost(ParticleState& s, const Vector3D& direction, double g, double b) {
    Cartesian3D n = direction;
    double len = n.magnitude(), m = ParticleDef::GetParticleDefForType(s.type).mass, E = s.energy;
    vf_assert(g * g - b * b == 1, "boost is called with consistent gamma and beta gamma");
    vf_assert(len > 0, "boost is called with a direction");
    Ghost& h = ghost_of(s);
    double pn = 0, px[3], p2 = 0;
    for (int i = 0; i < 3; i++) pn += h.p[i] * n[i] / len;
    for (int i = 0; i < 3; i++) { px[i] = h.p[i] + ((g - 1) * pn - b * E) * n[i] / len; p2 += px[i] * px[i]; }
    double a = std::sqrt(p2);
    s.energy = g * E - b * pn;
    s.direction = Cartesian3D(px[0] / a, px[1] / a, px[2] / a);
    h.E = s.energy;
    for (int i = 0; i < 3; i++) { h.d[i] = px[i] / a; h.p[i] = px[i]; }
}
static void momentum_of(const ParticleState& s, double* p) {
    if (vf_symbolic()) { Ghost& h = ghost_of(s); for (int i = 0; i < 3; i++) p[i] = h.p[i]; }
    else { double q = s.GetMomentum(); Cartesian3D d(s.direction); for (int i = 0; i < 3; i++) p[i] = q * d[i]; }
}
static ParticleState parent(double M, double b, const Cartesian3D& n) { return ParticleState(ParticleType::MuMinus, Cartesian3D(1, 2, 3), n, M * std::sqrt(1 + b * b), 7, 11); }
static void conserved(const std::vector<ParticleState>& out, const ParticleState& in, double M, int first) {
    double E = 0, p[3] = {0, 0, 0}, P = std::sqrt((in.energy + M) * (in.energy - M));
    int t = first;
    for (auto& s : out) {
        double q[3];
        momentum_of(s, q);
        E += s.energy;
        for (int i = 0; i < 3; i++) p[i] += q[i];
        vf_assert(s.type == t++, "product type");
        vf_assert(Cartesian3D(s.position) == Cartesian3D(in.position), "products start where the particle decays");
        vf_assert(s.time == in.time, "products start when the particle decays");
        vf_assert(s.propagated_distance == 0, "products have not moved yet");
    }
    Cartesian3D n(in.direction);
    vf_assert_eq_tol(E, in.energy, "energy is conserved", 1e-6);
    for (int i = 0; i < 3; i++) vf_assert(vf_symbolic() ? p[i] == P * n[i] : std::abs(p[i] - P * n[i]) <= 1e-5 * (in.energy + 1), "momentum is conserved");
}
