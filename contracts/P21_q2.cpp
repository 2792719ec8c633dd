// VF-SOURCES: crosssection/parametrization/PhotoQ2Integration.cxx crosssection/parametrization/Photonuclear.cxx medium/Components.cxx particle/ParticleDef.cxx Constants.cxx decay/DecayTable.cxx
// VF-REPLACE: ^PROPOSAL::crosssection::PhotoAbramowiczLevinLevyMaor91::FunctionToQ2Integral => vfr_q2 [in=photo_q2_integrated]
#include "common.hpp"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include <algorithm>
#include <memory>
using namespace PROPOSAL::crosssection;

// any shadowing model: an arbitrary function of the element, Bjorken x and energy transfer
struct AnyShadow : ShadowEffect {
    double CalculateShadowEffect(const Component& c, double x, double nu) override { return vf_uf3("shadow", c.atomicNum_, x, nu); }
};
struct K { ParticleDef p; Component c; double E, v, Q2, M, x, m, Z, A, sh; };
static K any_k() {
    K k{any_particle(), any_component()};
    k.E = vf_real("E", 1e4, 1e9); k.v = vf_real("v", 0.05, 0.95);
    k.M = k.c.averageNucleonWeight_; k.m = k.p.mass; k.Z = k.c.nucCharge_; k.A = k.c.atomicNum_;
    vf_assume(k.E > 0); vf_assume(k.v > 0); vf_assume(k.v < 1);
    if (vf_symbolic()) { k.Q2 = vf_real("Q2", 0, 1); vf_assume(k.Q2 > 0); }
    else k.Q2 = 2 * k.M * k.E * k.v * std::pow(10, vf_real("logx", -6, -0.05));
    k.x = k.Q2 / (2 * k.M * k.v * k.E);
    vf_assume(k.x < 1);
    k.sh = vf_uf3("shadow", k.A, k.x, k.v * k.E);
    return k;
}
// one-photon exchange with spin 1/2 projectiles, Dutta et al. eq. 3.4 and 3.11
static double lepton(const K& k, double F2, double R) {
    return sq(ME * RE / k.Q2) * 4 * PI * F2 / k.v * (1 - k.v - k.M * k.x * k.v / (2 * k.E)
        + (1 - 2 * sq(k.m) / k.Q2) * sq(k.v) * (1 + 4 * sq(k.M * k.x) / k.Q2) / (2 * (1 + R)));
}
// spin 0 projectiles, Reno et al. eq. 6 and 8
static double scalar(const K& k, double F2, double R) {
    return sq(ME * RE / k.Q2) * 4 * PI * F2 / k.v * (1 - k.v + sq(k.v) / 4
        - (1 + 4 * sq(k.m) / k.Q2) * sq(k.v) / 4 * (1 + 4 * sq(k.M * k.x) / k.Q2) / (1 + R));
}
// structure function of the nucleus from that of the proton; BCDMS ratio neutron/proton
static double nucleus(const K& k, double F2p) {
    double P = 1 - 1.85 * k.x + 2.45 * sq(k.x) - 2.35 * cube(k.x) + sq(sq(k.x));
    return F2p * k.sh * (k.Z + (k.A - k.Z) * P);
}
struct Allm { double aP[3], bP[3], cP[3], aR[3], bR[3], cR[3], m0, mP, mR, L, Q0; };
static double up(const double* f, double t) { return f[0] + f[1] * std::pow(t, f[2]); }
static double down(const double* f, double t) { return f[0] + (f[0] - f[1]) * (1 / (1 + std::pow(t, f[2])) - 1); }
static double allm(const K& k, const Allm& q, bool negative_powers = false) {
    double t = std::log(std::log((k.Q2 + q.Q0) / q.L) / std::log(q.Q0 / q.L));
    if (t < 0) t = 0;
    double aR, cR;
    if (negative_powers && !(t > 0)) { aR = q.aR[0]; cR = q.cR[0]; } else { aR = up(q.aR, t); cR = up(q.cR, t); }
    double s = 2 * k.M * k.E * k.v - k.Q2;     // W^2 - M^2
    double xP = (k.Q2 + q.mP) / (k.Q2 + q.mP + s), xR = (k.Q2 + q.mR) / (k.Q2 + q.mR + s);
    double FP = down(q.cP, t) * std::pow(xP, down(q.aP, t)) * std::pow(1 - k.x, up(q.bP, t));
    double FR = cR * std::pow(xR, aR) * std::pow(1 - k.x, up(q.bR, t));
    return k.Q2 / (k.Q2 + q.m0) * (FP + FR);
}
static const Allm A91 = { { -.04503, -.36407, 8.17091 }, { .49222 * .49222, .52116 * .52116, 3.55115 }, { .26550, .04856, 1.04682 },
    { .60408, .17353, 1.61812 }, { 1.26066 * 1.26066, 1.83624 * 1.83624, .81141 }, { .67639, .49027, 2.66275 },
    .30508e6, 10.67564e6, .20623e6, .06527e6, .27799e6 + .06527e6 };
static const Allm A97 = { { -.0808, -.44812, 1.1709 }, { .36292, 1.8917, 1.8439 }, { .28067, .22291, 2.1979 },
    { .58400, .37888, 2.6063 }, { .01147, 3.7582, .49338 }, { .80107, .97307, 3.4942 },
    .31985e6, 49.457e6, .15052e6, .06527e6, .52544e6 };
static const Allm HHT = { { -.075, -.470, 9.2 }, { -.477, 54.0, .073 }, { .356, .171, 18.6 },
    { .882, .082, -8.5 }, { .339, 3.38, 1.07 }, { -.636, 3.37, -.660 },
    .388e6, 50.8e6, .838e6, 4.4e-3, 1.87e1 };

VF_CONTRACT(photo_allm91) {
    K k = any_k(); PhotoAbramowiczLevinLevyMaor91 f(std::make_shared<AnyShadow>());
    vf_assert_eq(f.FunctionToQ2Integral(k.p, k.c, k.E, k.v, k.Q2), lepton(k, nucleus(k, allm(k, A91)), 0), "ALLM91 d2sigma/dv dQ2");
}
VF_CONTRACT(photo_allm97) {
    K k = any_k(); PhotoAbramowiczLevinLevyMaor97 f(std::make_shared<AnyShadow>());
    vf_assert_eq(f.FunctionToQ2Integral(k.p, k.c, k.E, k.v, k.Q2), lepton(k, nucleus(k, allm(k, A97)), 0), "ALLM97 d2sigma/dv dQ2");
}
VF_CONTRACT(photo_reno_sarcevic_su) {
    K k = any_k(); PhotoRenoSarcevicSu f(std::make_shared<AnyShadow>());
    vf_assert_eq(f.FunctionToQ2Integral(k.p, k.c, k.E, k.v, k.Q2), scalar(k, nucleus(k, allm(k, A97)), 0), "Reno-Sarcevic-Su d2sigma/dv dQ2 of spin 0 particles");
}
VF_CONTRACT(photo_abt_ft) {
    K k = any_k(); PhotoAbtFT f(std::make_shared<AnyShadow>());
    vf_assert_eq(f.FunctionToQ2Integral(k.p, k.c, k.E, k.v, k.Q2), lepton(k, nucleus(k, allm(k, HHT, true)), 0), "HHT-ALLM-FT d2sigma/dv dQ2");
}
VF_CONTRACT(photo_block_durand_ha) {
    K k = any_k(); PhotoBlockDurandHa f(std::make_shared<AnyShadow>());
    double l = std::log(1 + k.Q2 / 2.82e6);
    double A = 8.205e-4 - 5.148e-2 * l - 4.725e-3 * sq(l), B = 2.217e-3 + 1.244e-2 * l + 5.958e-4 * sq(l), C = .255 + .1475 * l;
    double D = k.Q2 * (k.Q2 + 2.430 * .753e6) / sq(k.Q2 + .753e6), w = std::log(k.Q2 / k.x / (k.Q2 + 2.82e6));
    double F2 = D * std::pow(1 - k.x, 11.49) * (C + A * w + B * sq(w));
    vf_assert_eq(f.FunctionToQ2Integral(k.p, k.c, k.E, k.v, k.Q2), lepton(k, nucleus(k, F2), 0), "Block-Durand-Ha d2sigma/dv dQ2");
}
VF_CONTRACT(photo_butkevich_mikheyev) {
    K k = any_k(); PhotoButkevichMikheyev f(std::make_shared<AnyShadow>());
    double Q = k.Q2, x = k.x, n = 1.5 * (1 + Q / (Q + 3.0292e6)), D = .0988 * (1 + 2 * Q / (Q + 1.4817e6));
    double S = .12 * std::pow(x, -D) * std::pow(Q / (Q + .2513e6), 1 + D);
    double V = std::pow(x, 1 - .4056) * std::pow(1 - x, n) * std::pow(Q / (Q + .6186e6), .4056);
    double U = 1.2437 * V, W = .1853 * V * (1 - x);
    double Fp = S * std::pow(1 - x, n + 4) + U + W, Fn = S * std::pow(1 - x, n + 1.8152) + U / 4 + 4 * W;
    vf_assert_eq(f.FunctionToQ2Integral(k.p, k.c, k.E, k.v, k.Q2), lepton(k, k.sh * (k.Z * Fp + (k.A - k.Z) * Fn), .25), "Butkevich-Mikheyev d2sigma/dv dQ2");
}
// integration over the momentum transfer
extern "C" double vfr_q2(const PhotoQ2Integral*, const ParticleDef*, const Component*, double E, double v, double Q2) { return vf_uf3("f_q2", E, v, Q2); }
VF_CONTRACT(photo_q2_integrated) {
    auto p = any_particle(); auto c = any_component();
    double E = vf_real("E", 1e3, 1e9), v = vf_real("v", 0.01, 0.99), m = p.mass, M = c.averageNucleonWeight_;
    vf_assume(E > m); vf_assume(v > 0); vf_assume(v < 1);
    PhotoAbramowiczLevinLevyMaor91 f(std::make_shared<AnyShadow>());
    double got = f.DifferentialCrossSection(p, c, E, v);
    auto lim = f.GetKinematicLimits(p, c, E);
    double lo = sq(m * v) / (1 - v);
    if (m < MPI) lo -= sq(sq(m) / E) / (2 * (1 - v));
    double hi = 2 * M * E * (v - lim.v_min);
    vf_cover("reached");
    if (lo > hi) { vf_assert_eq(got, 0, "no momentum transfer is possible"); return; }
    double I = vf_integral(lo, hi, [&](double q) { return vf_symbolic() ? vf_uf3("f_q2", E, v, q) : f.FunctionToQ2Integral(p, c, E, v, q); });
    vf_assert_eq_tol(got, std::max(NA / c.atomicNum_ * I * sq(p.charge), 0.), "integral over the allowed momentum transfers", 1e-3);
}
VF_CONTRACT(shadow_dutta) {
    auto c = any_component();
    if (vf_choose("hydrogen", 2)) c.nucCharge_ = 1; else vf_assume(c.nucCharge_ != 1);
    double x = std::pow(10, vf_real("logx", -6, 0)), nu = vf_real("nu", 1e3, 1e8);
    if (vf_symbolic()) x = vf_real("x", 0, 1);
    vf_assume(x > 0);
    double G = ShadowDuttaRenoSarcevicSeckel().CalculateShadowEffect(c, x, nu), A = c.atomicNum_;
    double want = c.nucCharge_ == 1 ? 1 : x < .0014 ? std::pow(A, -.1) : x < .04 ? std::pow(A, .069 * std::log10(x) + .097) : 1;
    vf_assert_eq(G, want, "Dutta et al. shadowing");
}
VF_CONTRACT(shadow_butkevich) {
    auto c = any_component();
    c.wood_saxon_ = vf_real("ws", 0.3, 0.9); vf_assume(c.wood_saxon_ > 0);
    if (vf_choose("hydrogen", 2)) c.nucCharge_ = 1; else vf_assume(c.nucCharge_ != 1);
    double x = vf_symbolic() ? vf_real("x", 0, 1) : std::pow(10, vf_real("logx", -6, -0.01)), nu = vf_real("nu", 1e3, 1e8);
    vf_assume(x > 0); vf_assume(x < 1); vf_assume(nu > 0);
    double G = ShadowButkevichMikheyev().CalculateShadowEffect(c, x, nu), W = c.wood_saxon_, want;
    if (c.nucCharge_ == 1) want = 1;
    else if (x > .3) {
        double au = 1 / (1 - x), ac = 1 / (1 - .278);
        want = 1 - .437 * W * (1 - .5 * x) * (au - ac - MPI / c.averageNucleonWeight_ * (sq(au) - sq(ac)));
    } else {
        double n = nu / 1000, s = 112.2 * (.609 * std::pow(n, .0988) + 1.037 * std::pow(n, -.5944)), t = .00282 * std::pow(c.atomicNum_, 1. / 3) * s;
        double g = .75 * (3 / t * (.5 + ((1 + t) * std::exp(-t) - 1) / sq(t))) + .25;
        double x0 = std::pow(g / (1 + .456 * W), 1 / (.129 * W));
        want = x >= x0 ? std::pow(x, .129 * W) * (1 + .456 * W) * (1 - .553 * W * x) : g;
    }
    vf_assert_eq(G, want, "Butkevich-Mikheyev shadowing");
}
