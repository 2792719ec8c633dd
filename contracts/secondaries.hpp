// Shared by the contracts on interaction products: an arbitrary loss along an arbitrary direction, the contract of deflect.
#pragma once
#include "common.hpp"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
static double g_ph, g_ct;                 // ghost: the direction of the primary
static double g_cos[4], g_az[4]; static int g_ndefl;
// P03 proves: the deflected direction is c d + s (cos t e_theta + sin t e_phi)
extern "C" void vfr_deflect(Cartesian3D& d, double c, double t) {
    double st = std::sqrt(1 - g_ct * g_ct), cp = std::cos(g_ph), sp = std::sin(g_ph), s = std::sqrt((1 - c) * (1 + c));
    vf_assert(d == Cartesian3D(st * cp, st * sp, g_ct), "the direction of the primary is deflected");
    if (g_ndefl < 4) { g_cos[g_ndefl] = c; g_az[g_ndefl] = t; }
    g_ndefl++;
    double a = s * std::cos(t), b = s * std::sin(t);
    d.SetX(c * st * cp + a * g_ct * cp - b * sp);
    d.SetY(c * st * sp + a * g_ct * sp + b * cp);
    d.SetZ(c * g_ct - a * st);
}
static StochasticLoss any_loss(InteractionType type, double Elo, double Ehi) {
    double E = vf_real("E", Elo, Ehi), w = vf_real("loss", 0.001, 0.999), t = vf_real("time", 0, 1), s = vf_real("distance", 0, 100);
    vf_assume(E > 0); vf_assume(w > 0); vf_assume(w < 1);
    g_ph = vf_real("phi", -3, 3); g_ct = vf_real("costheta", -0.99, 0.99); g_ndefl = 0;
    vf_assume(g_ct < 1); vf_assume(g_ct > -1);
    double st = std::sqrt(1 - g_ct * g_ct);
    return StochasticLoss((int)type, w * E, Cartesian3D(vf_real("x", -5, 5), vf_real("y", -5, 5), vf_real("z", -5, 5)),
        Cartesian3D(st * std::cos(g_ph), st * std::sin(g_ph), g_ct), t, s, E, 1);
}
static std::vector<double> any_random(size_t n) {
    static const char* N[] = {"u0", "u1", "u2", "u3"};
    std::vector<double> r;
    for (size_t i = 0; i < n; i++) { double u = vf_real(N[i], 0.001, 0.999); vf_assume(u >= 0); vf_assume(u < 1); r.push_back(u); }
    return r;
}
static void product(const ParticleState& s, int type, const StochasticLoss& l, double E, const char* what) {
    vf_assert(s.type == type, "type of the product");
    vf_assert_eq_tol(s.energy, E, what, 1e-9);
    vf_assert(Cartesian3D(s.position) == Cartesian3D(l.position), "products start where the interaction happened");
    vf_assert(s.time == l.time, "products start when the interaction happened");
}
static void keeps(const ParticleState& s, const StochasticLoss& l) { vf_assert(Cartesian3D(s.direction) == Cartesian3D(l.direction), "the product keeps the direction of the primary"); }
// the product leaves under the angle with cosine c; the azimuth counts from that of the loss
static void leaves(const ParticleState& s, const StochasticLoss& l, int k, double c, double az, const char* what) {
    if (vf_symbolic()) {
        vf_assert(g_ndefl > k, "the product is deflected");
        vf_assert_eq(g_cos[k], c, what);
        vf_assert(std::cos(g_az[k]) == std::cos(az), "azimuth of the product");
        vf_assert(std::sin(g_az[k]) == std::sin(az), "azimuth of the product");
    } else {
        Cartesian3D n(s.direction), d(l.direction);
        double rho = std::sqrt(d[0] * d[0] + d[1] * d[1]), q = std::sqrt(std::max(0., (1 - c) * (1 + c)));
        vf_assert(std::abs(n * d - c) < 1e-6, what);
        vf_assert(std::abs(n[2] - (c * d[2] - rho * q * std::cos(az))) < 1e-6, "azimuth of the product");
        vf_assert(std::abs(n[1] * d[0] - n[0] * d[1] - rho * q * std::sin(az)) < 1e-6, "azimuth of the product");
    }
}
// sum of p_i * direction_i equals P * direction of the primary
static void balance(const StochasticLoss& l, double P, const ParticleState& a, double pa, const ParticleState& b, double pb) {
    Cartesian3D d(l.direction), u(a.direction), w(b.direction);
    for (int i = 0; i < 3; i++) vf_assert(vf_symbolic() ? pa * u[i] + pb * w[i] == P * d[i] : std::abs(pa * u[i] + pb * w[i] - P * d[i]) < 1e-5 * (P + 1), "momentum is conserved");
}
