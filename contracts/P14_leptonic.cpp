// VF-SOURCES: decay/LeptonicDecayChannel.cxx decay/DecayChannel.cxx decay/DecayTable.cxx decay/StableChannel.cxx particle/Particle.cxx particle/ParticleDef.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx math/RandomGenerator.cxx Constants.cxx Logging.cxx methods.cxx
// VF-REPLACE: ^PROPOSAL::RandomGenerator::RandomDouble\(\) => vfr_random
// VF-REPLACE: ^PROPOSAL::DecayChannel::Boost\(PROPOSAL::ParticleState&, => vfr_boost
// VF-REPLACE: ^PROPOSAL::NewtonRaphson\( => vfr_newton
// VF-ASSUME: the random generator returns numbers in [0,1)
// VF-ASSUME: NewtonRaphson returns a value inside the bracket it is given (P07)
#include "decay.hpp"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/math/MathMethods.h"
// Michel spectrum for a massless lepton: integral of (3 - 2 x) x^2 is x^3 (1 - x/2)
static double approx_rate(double x) { return (3 - 2 * x) * x * x; }
static double approx_integral(double x) { return x * x * x - x * x * x * x / 2; }
// massive lepton: dGamma/dE ~ sqrt(E^2 - m^2) (M E (3 M - 4 E) + m^2 (3 E - 2 M))
static double exact_rate(double x, double M, double m, double emax) { double E = emax * x; return emax * std::sqrt(std::max(0.0, E * E - m * m)) * (M * E * (3 * M - 4 * E) + m * m * (3 * E - 2 * M)); }
static double exact_integral(double x, double M, double m, double emax) {
    double E = emax * x, p2 = std::max(0.0, E * E - m * m), p = std::sqrt(p2);
    return 1.5 * sq(sq(m)) * M * std::log(p + E) + p * ((M * M + m * m - M * E) * (E * E - m * m) - 1.5 * M * E * m * m);
}
static double g_x, g_f, g_df, g_lo, g_hi, g_root; // ghost: what the root search was given
extern "C" double vfr_newton(std::function<double(double)> f, std::function<double(double)> df, double a, double b, double start, int, double) {
    g_f = f(g_x); g_df = df(g_x); g_lo = a; g_hi = b;
    return g_root;
}
struct Setup { double M, m, b; };
static Setup setup() {
    double m = mass("lepton", vf_choose("massless", 2), 1000), d = vf_real("free", 1, 1000);
    vf_assume(d > 0);
    return Setup{m + d, m, 0};
}
VF_CONTRACT(spectrum) {
    auto s = setup();
    double emax = (s.M * s.M + s.m * s.m) / (2 * s.M), x = vf_real("x", 0.05, 1), r = vf_real("r", -1, 1);
    vf_assume(x > 0); vf_assume(x <= 1); // below the rest mass the rate vanishes
    auto l = product(900001, s.m), n = product(900002, 0), a = product(900003, 0);
    bool exact = vf_bool("exact");
    if (exact) vf_assume(s.m > 0);
    LeptonicDecayChannelApprox ca(l, n, a); LeptonicDecayChannel ce(l, n, a);
    LeptonicDecayChannelApprox& c = exact ? (LeptonicDecayChannelApprox&)ce : ca;
    vf_assert_eq(c.DifferentialDecayRate(x, s.M, emax), exact ? exact_rate(x, s.M, s.m, emax) : approx_rate(x), "differential decay rate");
    vf_assert_eq_tol(c.DecayRate(x, s.M, emax, r), (exact ? exact_integral(x, s.M, s.m, emax) : approx_integral(x)) - r, "integrated decay rate minus the random share", 1e-3);
    g_x = vf_real("x2", 0.1, 1); g_root = vf_real("root", 0.1, 1);
    vf_assume(g_x > 0); vf_assume(g_x <= 1);
    double xm = s.m / emax, f = exact ? exact_integral(g_x, s.M, s.m, emax) : approx_integral(g_x), df = exact ? exact_rate(g_x, s.M, s.m, emax) : approx_rate(g_x);
    if (!vf_symbolic()) { // random share
        auto F = [&](double y) { return exact ? exact_integral(y, s.M, s.m, emax) : approx_integral(y); };
        vf_assume(g_root > 0.001); vf_assume(g_root < 0.999); vf_assume(s.m < 0.99 * emax);
        r = F(xm) + (F(1) - F(xm)) * g_root;
        vf_assert(std::abs(F(c.FindRoot(xm, s.M, emax, r)) - r) <= 1e-2 * (F(1) - F(xm)), "the integrated decay rate at the root is the random share");
        return;
    }
    double got = c.FindRoot(xm, s.M, emax, r);
    if (vf_symbolic()) {
        vf_assert_eq(got, g_root, "the root is returned");
        vf_assert_eq(g_lo, xm, "search starts at the smallest energy fraction"); vf_assert_eq(g_hi, 1, "search ends at the largest energy");
        vf_assert_eq(g_f, f - r, "search uses the integrated decay rate"); vf_assert_eq(g_df, df, "search uses the differential decay rate");
    }
    vf_cover("reached");
}
// lemma: the integrated rate is an antiderivative of the differential rate; with p = sqrt(E^2-m^2): dp/dE = E/p, d log(p+E)/dE = 1/p
VF_CONTRACT(antiderivative) {
    auto s = setup();
    double x = vf_real("x", 0.05, 1), emax = vf_real("emax", 1, 1000), E = x * emax, M = s.M, m2 = s.m * s.m;
    vf_assume(x > 0); vf_assume(emax > 0); vf_assume(E > s.m);
    auto l = product(900001, s.m), n = product(900002, 0), a = product(900003, 0);
    LeptonicDecayChannelApprox ca(l, n, a); LeptonicDecayChannel ce(l, n, a);
    LeptonicDecayChannelApprox& c = ce;
    double p = std::sqrt(E * E - m2), poly = (M * M + m2 - M * E) * (E * E - m2) - 1.5 * M * E * m2;
    double dpoly = -M * (E * E - m2) + (M * M + m2 - M * E) * 2 * E - 1.5 * M * m2;
    double d = 1.5 * m2 * m2 * M / p + E / p * poly + p * dpoly;
    vf_assert_eq_tol(c.DifferentialDecayRate(x, M, emax), emax * d, "differential rate is the derivative of the integrated rate", 1e-2);
}
VF_CONTRACT(decay) {
    ParticleDef::GetParticleDefForType(11);
    auto s = setup();
    double b = vf_real("betagamma", 0.01, 30), emax = (s.M * s.M + s.m * s.m) / (2 * s.M);
    vf_assume(b >= 0);
    auto l = product(900001, s.m), n = product(900002, 0), a = product(900003, 0);
    auto in = parent(s.M, b, unit("nphi", "ntheta"));
    randoms(5);
    g_x = vf_real("x2", 0.1, 1); g_root = vf_real("root", 0.1, 1);
    vf_assume(g_x > 0); vf_assume(g_x * emax > s.m); vf_assume(g_x <= 1);
    vf_assume(g_root > 0); vf_assume(g_root < 1); vf_assume(g_root * emax > s.m);
    if (!vf_symbolic()) vf_assume(s.m < 0.99 * s.M);
    bool exact = vf_bool("exact");
    if (exact) vf_assume(s.m > 0);
    LeptonicDecayChannelApprox ca(l, n, a); LeptonicDecayChannel ce(l, n, a);
    DecayChannel& c = exact ? (DecayChannel&)ce : ca;
    auto out = c.Decay(particle_of_mass(s.M), in);
    vf_cover("reached");
    vf_assert(out.size() == 3, "three products");
    conserved(out, in, s.M, 900001);
    if (vf_symbolic()) {
        double xm = s.m / emax, f = exact ? exact_integral(g_x, s.M, s.m, emax) : approx_integral(g_x);
        double f0 = exact ? exact_integral(xm, s.M, s.m, emax) : approx_integral(xm), f1 = exact ? exact_integral(1, s.M, s.m, emax) : approx_integral(1);
        vf_assert_eq(g_f, f - (f0 + (f1 - f0) * g_rnd[0]), "lepton energy is drawn from the integrated decay rate");
        vf_assert_eq(g_lo, xm, "down to the rest mass");
        vf_assert_eq(g_hi, 1, "up to the kinematic limit");
        double q[3]; momentum_of(out[0], q);
        // rest frame energy of the lepton, from the conserved product with the parent's four-momentum
        double inv = in.energy * out[0].energy, P = std::sqrt((in.energy + s.M) * (in.energy - s.M)); Cartesian3D nn(in.direction);
        for (int i = 0; i < 3; i++) inv -= P * nn[i] * q[i];
        vf_assert_eq(inv, s.M * g_root * emax, "rest-frame energy of the lepton is the sampled fraction of its largest energy");
    }
}
VF_CONTRACT(equality) {
    ParticleDef::GetParticleDefForType(11);
    auto l = product(900001, 1), n = product(900002, 0), a = product(900003, 0), o = product(900004, 2);
    LeptonicDecayChannelApprox c(l, n, a), c1(o, n, a), c2(l, o, a), c3(l, n, o), d(c);
    vf_assert(c == d, "a copy is equal"); vf_assert(*std::unique_ptr<DecayChannel>(c.clone()) == c, "a clone is equal");
    vf_assert(c != c1, "lepton matters"); vf_assert(c != c2, "neutrino matters"); vf_assert(c != c3, "antineutrino matters");
}
