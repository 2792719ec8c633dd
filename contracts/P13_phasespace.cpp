// VF-SOURCES: decay/DecayChannel.cxx decay/TwoBodyPhaseSpace.cxx decay/ManyBodyPhaseSpace.cxx decay/StableChannel.cxx decay/DecayTable.cxx particle/Particle.cxx particle/ParticleDef.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx math/RandomGenerator.cxx Constants.cxx Logging.cxx methods.cxx
// VF-BOUNDED: [in=many_body_.*|kinematics|max_weight] decays into three and four bodies
// VF-REPLACE: ^PROPOSAL::RandomGenerator::RandomDouble\(\) => vfr_random
// VF-REPLACE: ^PROPOSAL::DecayChannel::Boost\(PROPOSAL::ParticleState&, => vfr_boost [in=two_body|many_body]
// VF-REPLACE: ^PROPOSAL::DecayChannel::Momentum\( => vfr_momentum [in=two_body]
// VF-REPLACE: ^PROPOSAL::DecayChannel::Momentum\( => vfr_momentum_uf [in=kinematics|max_weight]
// VF-REPLACE: ^PROPOSAL::ManyBodyPhaseSpace::GenerateEvent\( => vfr_event [in=many_body_decay]
// VF-REPLACE: ^PROPOSAL::ManyBodyPhaseSpace::CalculateKinematics\( => vfr_kinematics [in=many_body_decay]
// VF-REPLACE: ^PROPOSAL::ManyBodyPhaseSpace::GetPhaseSpaceParams\( => vfr_params [in=many_body_decay]
// VF-REPLACE: ^std::hash<PROPOSAL::ParticleDef>::operator\(\) => vfr_hash
// VF-ASSUME: the random generator returns numbers in [0,1)
#include "decay.hpp"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
// Lorentz boost of a state: momentum and energy transform with gamma, beta gamma along the (unnormalised) direction
VF_CONTRACT(boost) {
    ParticleDef::GetParticleDefForType(11);
    double m = mass("m", vf_choose("massless", 2), 1000), p = vf_real("p", 1, 1e4), b = vf_real("betagamma", 0, 30), l = vf_real("length", 0.1, 10);
    vf_assume(p > 0); vf_assume(b >= 0); vf_assume(l > 0);
    auto def = product(900001, m);
    auto d = unit("dphi", "dtheta"), n = unit("nphi", "ntheta");
    double E = std::sqrt(p * p + m * m), g = std::sqrt(1 + b * b), pn = p * (d * n);
    ParticleState s(ParticleType(900001), Cartesian3D(1, 2, 3), d, E, 4, 5);
    double px[3], p2 = 0;
    for (int i = 0; i < 3; i++) { px[i] = p * d[i] + ((g - 1) * pn - b * E) * n[i]; p2 += px[i] * px[i]; }
    vf_assume(p2 > 0);
    DecayChannel::Boost(s, l * n, g, b);
    vf_cover("reached");
    vf_assert_eq(s.energy * s.energy, sq(g * E - b * pn), "boosted energy");
    vf_assert(s.energy >= 0, "boosted energy is not negative");
    double q = s.GetMomentum();
    Cartesian3D dir(s.direction);
    for (int i = 0; i < 3; i++) vf_assert_eq(q * dir[i], px[i], "boosted momentum");
    vf_assert_eq(dir * dir, 1, "boosted direction is a unit vector");
    vf_assert(s.type == 900001 && s.time == 4 && s.propagated_distance == 5, "a boost leaves everything else alone");
    vf_assert(Cartesian3D(s.position) == Cartesian3D(1, 2, 3), "a boost leaves the position alone");
}
// the energy a boost produces is not negative: gamma E - beta gamma p.n > 0
VF_CONTRACT(boost_energy_sign) {
    double g = vf_real("gamma", 1, 30), b = vf_real("b", 0, 30), E = vf_real("E", 1, 1e4), p = vf_real("p", 0, 1e4), c = vf_real("cos", -1, 1);
    if (!vf_symbolic()) { g = std::sqrt(1 + b * b); }
    vf_assume(b >= 0); vf_assume(g * g == 1 + b * b || !vf_symbolic()); vf_assume(g > 0); vf_assume(p >= 0); vf_assume(E >= p); vf_assume(E > 0); vf_assume(c >= -1); vf_assume(c <= 1);
    double pc = p * c;
    if (vf_symbolic()) { vf_assert(g > b, "gamma exceeds beta gamma"); vf_assert(pc <= p, "projection"); }
    vf_assert(g * E - b * pc > 0, "boosted energy is positive");
}
// momentum of a decay into two bodies; all masses above threshold are of the form M = E1 + E2
VF_CONTRACT(momentum) {
    double k = vf_real("k", 1e-3, 1e3), m1 = mass("m1", vf_choose("massless1", 2), 1000), m2 = mass("m2", vf_choose("massless2", 2), 1000);
    vf_assume(k > 0);
    double M = std::sqrt(k * k + m1 * m1) + std::sqrt(k * k + m2 * m2);
    double q = DecayChannel::Momentum(M, m1, m2);
    vf_assert(q >= 0, "momentum is not negative");
    vf_assert_eq_tol(q * q, (sq(sq(M)) + sq(sq(m1)) + sq(sq(m2)) - 2 * (sq(M * m1) + sq(M * m2) + sq(m1 * m2))) / (4 * M * M), "two-body momentum from the Kaellen function", 1e-2);
    vf_assert_eq_tol(q * q, k * k, "energies of the products add up to the mass", 1e-2);
}
VF_CONTRACT(momentum_threshold) {
    double m1 = vf_real("m1", 0, 1000), m2 = vf_real("m2", 0, 1000), M = vf_real("M", 0, 2000);
    vf_assume(m1 >= 0); vf_assume(m2 >= 0); vf_assume(M > 0); vf_assume(M <= m1 + m2); vf_assume(M >= m1); vf_assume(M >= m2);
    vf_assert(DecayChannel::Momentum(M, m1, m2) == 0, "no momentum at or below threshold");
}
VF_CONTRACT(random_direction) {
    randoms(2);
    Cartesian3D d = DecayChannel::GenerateRandomDirection();
    double c = 2 * g_rnd[1] - 1, s = std::sqrt(1 - c * c);
    vf_assert_eq(d[0], s * std::cos(2 * PI * g_rnd[0]), "isotropic direction");
    vf_assert_eq(d[1], s * std::sin(2 * PI * g_rnd[0]), "isotropic direction");
    vf_assert_eq(d[2], c, "isotropic direction");
    vf_assert_eq(d * d, 1, "random direction is a unit vector");
    vf_assert(g_n == 2, "uses two random numbers");
}
// callee contracts used below
static double g_M, g_m1, g_m2, g_k;
extern "C" double vfr_momentum(double M, double m1, double m2) {
    vf_assert(M == g_M, "two-body momentum of the decaying mass"); vf_assert(m1 == g_m1, "two-body momentum: first product"); vf_assert(m2 == g_m2, "two-body momentum: second product");
    return g_k;
}
VF_CONTRACT(two_body) {
    ParticleDef::GetParticleDefForType(11);
    double k = vf_real("k", 1, 1e3), m1 = mass("m1", vf_choose("massless1", 2), 1000), m2 = mass("m2", vf_choose("massless2", 2), 1000), b = vf_real("betagamma", 0.01, 30);
    vf_assume(k > 0); vf_assume(b >= 0);
    double M = std::sqrt(k * k + m1 * m1) + std::sqrt(k * k + m2 * m2);
    g_M = M; g_m1 = m1; g_m2 = m2; g_k = k;
    auto a = product(900001, m1), c = product(900002, m2);
    auto in = parent(M, b, unit("nphi", "ntheta"));
    randoms(2);
    TwoBodyPhaseSpace d(a, c);
    auto out = d.Decay(particle_of_mass(M), in);
    vf_cover("reached");
    vf_assert(out.size() == 2, "two products");
    conserved(out, in, M, 900001);
}

// ---- many bodies: virtual masses and momenta of the Raubold-Lynch algorithm
extern "C" size_t vfr_hash(void*, const ParticleDef&) { return 5; } // lookup by equality works for every hash function
extern "C" double vfr_momentum_uf(double M, double a, double b) { return vf_uf3("momentum", M, a, b); }
static double mom(double M, double a, double b) { return vf_symbolic() ? vf_uf3("momentum", M, a, b) : DecayChannel::Momentum(M, a, b); }
static ManyBodyPhaseSpace channel(int n, const double* m, ManyBodyPhaseSpace::MatrixElementFunction me = nullptr) {
    std::vector<std::shared_ptr<const ParticleDef>> d;
    for (int i = 0; i < n; i++) d.push_back(std::make_shared<ParticleDef>(product(900001 + i, m[i])));
    return ManyBodyPhaseSpace(d, me);
}
VF_CONTRACT(kinematics) {
    ParticleDef::GetParticleDefForType(11);
    int n = 3 + vf_choose("bodies", 2);
    double m[4], sum = 0;
    static const char* N[] = {"m0", "m1", "m2", "m3"};
    for (int i = 0; i < n; i++) { m[i] = vf_real(N[i], 0, 300); vf_assume(m[i] >= 0); sum += m[i]; }
    double free = vf_real("free", 1, 1000), norm = vf_real("norm", 0.1, 10), M = sum + free;
    vf_assume(free > 0);
    auto c = channel(n, m);
    randoms(n - 2);
    double lo = std::min(g_rnd[0], g_rnd[1]), hi = std::max(g_rnd[0], g_rnd[1]);
    if (n == 3) lo = g_rnd[0];
    auto k = c.CalculateKinematics(norm, M);
    vf_cover("reached");
    vf_assert(k.virtual_masses.size() == (size_t)n, "one virtual mass per product");
    vf_assert(k.momenta.size() == (size_t)n - 1, "one momentum per splitting");
    double r[4] = {0, lo, n == 3 ? 1 : hi, 1}, w = norm, part = 0, V[4];
    for (int i = 0; i < n; i++) {
        part += m[i]; V[i] = part + r[i] * free;
        vf_assert_eq(k.virtual_masses[i], V[i], "virtual masses: sum of the masses so far plus an ordered random share of the free energy");
        if (i) { double q = mom(k.virtual_masses[i], k.virtual_masses[i - 1], m[i]); vf_assert_eq(k.momenta[i - 1], q, "momentum of each splitting"); w *= q; }
    }
    vf_assert_eq(k.virtual_masses[n - 1], M, "the last virtual mass is the mass of the decaying particle");
    vf_assert_eq(k.weight, w, "weight is the normalisation times all momenta");
}
VF_CONTRACT(max_weight) {
    ParticleDef::GetParticleDefForType(11);
    int n = 2 + vf_choose("bodies", 3);
    double m[4], sum = 0;
    static const char* N[] = {"m0", "m1", "m2", "m3"};
    for (int i = 0; i < n; i++) { m[i] = vf_real(N[i], 0, 300); vf_assume(m[i] >= 0); sum += m[i]; }
    double free = vf_real("free", 1, 1000), M = sum + free, fact = n == 4 ? 2 : 1;
    vf_assume(free > 0);
    auto c = channel(n, m);
    vf_assert_eq(c.sum_daughter_masses_, sum, "sum of the product masses");
    double want = 1 / (2 * M) * 2 * PI / fact;
    for (int i = 2; i < n; i++) want *= free * 2 * PI;
    vf_assert_eq(c.CalculateNormalization(M), want, "phase space normalisation (2 pi)^(n-1) (M - sum m)^(n-2) / (n-2)! / 2M");
    auto parent = particle_of_mass(M);
    auto q = c.GetPhaseSpaceParams(parent);
    vf_assert_eq(q.normalization, want, "phase space parameters hold the normalisation");
    vf_assert(q.weight_min == 0, "smallest weight");
    double lo = 0, hi = free + m[0];
    for (int i = 1; i < n; i++) { lo += m[i - 1]; hi += m[i]; want *= mom(hi, lo, m[i]); }
    vf_assert_eq(q.weight_max, want, "largest weight: every splitting at its largest virtual mass");
    vf_assert_eq(c.GetPhaseSpaceParams(parent).weight_max, q.weight_max, "phase space parameters are remembered");
    vf_assert(c.Evaluate(ParticleState(), {}) == 1, "default matrix element");
}
// products are generated in the rest frame: any momenta k_i, the virtual masses following from them
static double e_of(double k, double m) { return std::sqrt(k * k + m * m); }
template <int N> static void event() {
    ParticleDef::GetParticleDefForType(11);
    static const char *MN[] = {"m0", "m1", "m2", "m3", "m4"}, *KN[] = {"k1", "k2", "k3", "k4"};
    double m[N], k[N - 1];
    for (int i = 0; i < N; i++) m[i] = mass(MN[i], N == 3 && vf_choose(i == 0 ? "z0" : i == 1 ? "z1" : "z2", 2), 300);
    ManyBodyPhaseSpace::PhaseSpaceKinematics q; q.weight = 1;
    q.virtual_masses.push_back(m[0]);
    double V = m[0];
    for (int i = 1; i < N; i++) {
        k[i - 1] = vf_real(KN[i - 1], 1, 300); vf_assume(k[i - 1] > 0);
        q.momenta.push_back(k[i - 1]);
        V = e_of(k[i - 1], V) + e_of(k[i - 1], m[i]);
        q.virtual_masses.push_back(V);
    }
    auto c = channel(N, m);
    // the state of the products before does not matter (an earlier event may have been rejected)
    std::vector<ParticleState> out;
    for (int i = 0; i < N; i++) out.emplace_back(ParticleType(900001 + i), Cartesian3D(1, 2, 3), Cartesian3D(vf_real("ox", -1, 1), 0.5, 0.5), vf_real("oE", 1, 1000), 7, 0);
    randoms(2 * N - 2);
    c.GenerateEvent(out, q);
    vf_cover("reached");
    double E = 0, p[3] = {0, 0, 0};
    for (auto& s : out) { double q[3]; momentum_of(s, q); E += s.energy; for (int i = 0; i < 3; i++) p[i] += q[i]; }
    vf_assert_eq_tol(E, V, "energies add up to the mass", 1e-5);
    for (int i = 0; i < 3; i++) vf_assert(vf_symbolic() ? p[i] == 0 : std::abs(p[i]) < 1e-4 * (V + 1), "momenta balance in the rest frame");
}
VF_CONTRACT(many_body_event) { event<3>(); }
VF_CONTRACT(many_body_event_four) { event<4>(); }
static double g_px[2][3], g_E[3], g_ref[2]; static int g_events;
struct AnyKin { std::vector<double> v, m; double w; };
extern "C" ManyBodyPhaseSpace::PhaseSpaceKinematics vfr_kinematics(ManyBodyPhaseSpace*, double norm, double M) {
    vf_assert(norm == vf_uf1("norm", 1), "kinematics use the normalisation"); vf_assert(M == g_M, "kinematics of the decaying particle's mass");
    ManyBodyPhaseSpace::PhaseSpaceKinematics k; k.weight = vf_uf1("weight", g_events); k.momenta = {1, 2}; k.virtual_masses = {1, 2, 3};
    return k;
}
extern "C" ManyBodyPhaseSpace::PhaseSpaceParameters vfr_params(ManyBodyPhaseSpace*, const ParticleDef& d) {
    vf_assert(d.mass == g_M, "phase space of the decaying particle");
    ManyBodyPhaseSpace::PhaseSpaceParameters p; p.normalization = vf_uf1("norm", 1); p.weight_min = vf_uf1("wmin", 1); p.weight_max = vf_uf1("wmax", 1);
    return p;
}
extern "C" void vfr_event(ManyBodyPhaseSpace*, std::vector<ParticleState>& s, const ManyBodyPhaseSpace::PhaseSpaceKinematics&) {
    g_events++;
    for (int i = 0; i < 3; i++) {
        double x[3], a = 0;
        for (int j = 0; j < 3; j++) { x[j] = i < 2 ? g_px[i][j] : -(g_px[0][j] + g_px[1][j]); a += x[j] * x[j]; }
        a = std::sqrt(a);
        s[i].energy = g_E[i]; s[i].direction = Cartesian3D(x[0] / a, x[1] / a, x[2] / a);
        Ghost& h = g_state[i];
        h.known = true; h.E = g_E[i];
        for (int j = 0; j < 3; j++) { h.d[j] = x[j] / a; h.p[j] = x[j]; }
    }
}
VF_CONTRACT(many_body_decay) {
    ParticleDef::GetParticleDefForType(11);
    double m[3], b = vf_real("betagamma", 0.01, 30);
    vf_assume(b >= 0);
    static const char* N[] = {"q0", "q1", "q2", "q3", "q4", "q5"};
    m[0] = mass("m0", vf_choose("z0", 2), 300); m[1] = mass("m1", vf_choose("z1", 2), 300); m[2] = mass("m2", vf_choose("z2", 2), 300);
    g_M = 0; g_events = 0;
    for (int i = 0; i < 6; i++) g_px[i / 3][i % 3] = vf_real(N[i], -300, 300);
    for (int i = 0; i < 3; i++) {
        double a = 0;
        for (int j = 0; j < 3; j++) a += sq(i < 2 ? g_px[i][j] : g_px[0][j] + g_px[1][j]);
        vf_assume(a > 0);
        g_E[i] = std::sqrt(a + m[i] * m[i]); g_M += g_E[i];
    }
    bool uniform = vf_bool("uniform");
    auto c = channel(3, m, [](const ParticleState&, const std::vector<ParticleState>&) { return vf_symbolic() ? vf_uf1("me", g_events) : 1.; });
    c.SetUniformSampling(uniform);
    if (!vf_symbolic() && uniform) c.broad_phase_statistic_ = 5;
    auto in = parent(g_M, b, unit("nphi", "ntheta"));
    randoms(16);
    // rejected events are discarded altogether (many_body_event holds for any earlier state of the products)
    if (vf_symbolic() && uniform) { double ref = vf_uf1("wmin", 1) + g_rnd[0] * (vf_uf1("wmax", 1) - vf_uf1("wmin", 1)), ref2 = vf_uf1("wmin", 1) + g_rnd[1] * (vf_uf1("wmax", 1) - vf_uf1("wmin", 1));
        vf_assume(ref <= vf_uf1("weight", 0) * vf_uf1("me", 1) || ref2 <= vf_uf1("weight", 1) * vf_uf1("me", 2)); }
    auto out = c.Decay(particle_of_mass(g_M), in);
    vf_cover("reached");
    vf_assert(out.size() == 3, "three products");
    if (vf_symbolic() && uniform) {
        double ref = vf_uf1("wmin", 1) + g_rnd[0] * (vf_uf1("wmax", 1) - vf_uf1("wmin", 1));
        vf_assert((g_events == 1) == (ref <= vf_uf1("weight", 0) * vf_uf1("me", 1)), "an event is accepted with a probability proportional to its weight times the matrix element");
    }
    conserved(out, in, g_M, 900001);
}
VF_CONTRACT(stable_channel) {
    StableChannel s;
    vf_assert(s.Decay(particle_of_mass(vf_real("m", 1, 10)), ParticleState()).empty(), "a stable particle has no decay products");
}
