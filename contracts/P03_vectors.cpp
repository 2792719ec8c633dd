// VF-SOURCES: math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx
#include "vf.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
#include <nlohmann/json.hpp>
#include <cmath>
using namespace PROPOSAL;

static Cartesian3D vec(const char* x, const char* y, const char* z) { return Cartesian3D(vf_real(x, -10, 10), vf_real(y, -10, 10), vf_real(z, -10, 10)); }
VF_CONTRACT(vector_algebra) {
    auto a = vec("ax", "ay", "az"), b = vec("bx", "by", "bz");
    double k = vf_real("k", -5, 5);
    const Cartesian3D a0 = a, b0 = b;
    auto s = a + b, d = a - b, n = -a, l = k * a, r = a * k, x = vector_product(a, b);
    for (int i = 0; i < 3; i++) {
        vf_assert_eq(s[i], a0[i] + b0[i], "sum");
        vf_assert_eq(d[i], a0[i] - b0[i], "difference");
        vf_assert_eq(n[i], -a0[i], "negation");
        vf_assert_eq(l[i], k * a0[i], "scaling from the left");
        vf_assert_eq(r[i], k * a0[i], "scaling from the right");
        int j = (i + 1) % 3, m = (i + 2) % 3;
        vf_assert_eq(x[i], a0[j] * b0[m] - a0[m] * b0[j], "vector product");
        vf_assert_eq(a[i], a0[i], "operands are unchanged"); vf_assert_eq(b[i], b0[i], "operands are unchanged");
    }
    vf_assert_eq(a * b, a0[0] * b0[0] + a0[1] * b0[1] + a0[2] * b0[2], "scalar product");
    vf_assert_eq(a.magnitude(), std::sqrt(a0[0] * a0[0] + a0[1] * a0[1] + a0[2] * a0[2]), "magnitude");
    a += b;
    for (int i = 0; i < 3; i++) vf_assert_eq(a[i], a0[i] + b0[i], "accumulation");
    a = a0; a += a;
    for (int i = 0; i < 3; i++) vf_assert_eq(a[i], 2 * a0[i], "accumulation onto itself");
}
VF_CONTRACT(vector_normalize) {
    auto a = vec("ax", "ay", "az");
    double m2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
    vf_assume(m2 > 0);
    Cartesian3D n = a;
    n.normalize();
    for (int i = 0; i < 3; i++) vf_assert_eq(n[i], a[i] / std::sqrt(m2), "normalised vector is the direction of the original");
    vf_assert_eq(n * n, 1, "normalised vector has unit length");
    double r = vf_real("r", 0.1, 10);
    vf_assume(r > 0);
    Spherical3D s(r, vf_real("phi", 0, 6), vf_real("theta", 0, 3)), t = s;
    t.normalize();
    vf_assert_eq(t.magnitude(), 1, "normalised spherical vector has unit length");
    vf_assert_eq(t.GetAzimuth(), s.GetAzimuth(), "normalising keeps the azimuth");
    vf_assert_eq(t.GetZenith(), s.GetZenith(), "normalising keeps the zenith");
}
VF_CONTRACT(vector_access) {
    auto a = vec("ax", "ay", "az");
    double x = a.GetX(), y = a.GetY(), z = a.GetZ();
    vf_assert_eq(x, a[0], "x component"); vf_assert_eq(y, a[1], "y component"); vf_assert_eq(z, a[2], "z component");
    Cartesian3D b;
    b.SetX(x); b.SetY(y); b.SetZ(z);
    vf_assert(a == b, "component setters");
    vf_assert(!(a != b), "inequality is the negation of equality");
    Cartesian3D c;
    c.SetCoordinates(x, y, z);
    vf_assert(a == c, "coordinates setter");
    int i = vf_choose("component", 3);
    double e = vf_real("other", -10, 10);
    c[i] = e;
    vf_assert((a == c) == (e == a[i]), "vectors are equal exactly if every component agrees");
    vf_assert((a != c) == (e != a[i]), "vectors differ exactly if some component differs");
    Spherical3D s;
    s.SetRadius(x); s.SetAzimuth(y); s.SetZenith(z);
    vf_assert_eq(s.GetRadius(), x, "radius"); vf_assert_eq(s.GetAzimuth(), y, "azimuth"); vf_assert_eq(s.GetZenith(), z, "zenith");
    vf_assert(s == Spherical3D(x, y, z), "spherical setters");
    auto q = s.GetSphericalCoordinates(); auto p = a.GetCartesianCoordinates();
    for (int k = 0; k < 3; k++) { vf_assert_eq(q[k], a[k], "spherical coordinates"); vf_assert_eq(p[k], a[k], "cartesian coordinates"); }
}
VF_CONTRACT(spherical_to_cartesian) {
    double r = vf_real("r", 0, 10), phi = vf_real("phi", -3, 3), th = vf_real("theta", 0, 3.14);
    vf_assume(r >= 0);
    Cartesian3D c{Spherical3D(r, phi, th)};
    vf_assert_eq(c.GetX(), r * std::cos(phi) * std::sin(th), "x of a spherical vector");
    vf_assert_eq(c.GetY(), r * std::sin(phi) * std::sin(th), "y of a spherical vector");
    vf_assert_eq(c.GetZ(), r * std::cos(th), "z of a spherical vector");
    vf_assert_eq(c.magnitude(), r, "conversion keeps the length");
}
VF_CONTRACT(cartesian_to_spherical) {
    auto a = vec("ax", "ay", "az");
    vf_assume(a[0] * a[0] + a[1] * a[1] > 0);
    Spherical3D s(a);
    vf_assert_eq(s.GetRadius(), a.magnitude(), "radius is the length");
    vf_assert_eq(s.GetAzimuth(), std::atan2(a[1], a[0]), "azimuth");
    vf_assert_eq(std::cos(s.GetZenith()), a[2] / a.magnitude(), "zenith");
    Cartesian3D b(s);
    for (int i = 0; i < 3; i++) vf_assert_eq(b[i], a[i], "Cartesian to spherical and back is the identity");
}
VF_CONTRACT(cartesian_to_spherical_on_axis) {
    double z = vf_real("z", -5, 5);
    int side = vf_choose("side", 3);
    if (side == 0) z = 0; else if (side == 1) vf_assume(z > 0); else vf_assume(z < 0);
    Spherical3D s(Cartesian3D(0, 0, z));
    vf_assert_eq(s.GetRadius(), std::abs(z), "radius on the axis");
    Cartesian3D b(s);
    vf_assert_eq(b[2], z, "axis vectors survive the conversion");
    vf_assert_eq_tol(b[0], 0, "no x component on the axis", 1e-12);
    vf_assert_eq(b[1], 0, "no y component on the axis");
}
// deflection: polar angle against the old direction has the given cosine, length stays one
static void deflected(const Cartesian3D& d, double c, double t) {
    Cartesian3D n = d;
    n.deflect(c, t);
    vf_assert_eq_tol(n * n, 1, "a deflected direction is a unit vector", 1e-9);
    vf_assert_eq_tol(2 + n * d, 2 + c, "the angle to the old direction is the requested one", 1e-6);
    // the azimuth is measured in the frame (e_theta, e_phi) of the old direction
    double rho = std::sqrt(d[0] * d[0] + d[1] * d[1]), s = std::sqrt(std::max(0., (1 - c) * (1 + c)));
    vf_assert_eq_tol(n[2], c * d[2] - rho * s * std::cos(t), "azimuth zero turns away from the axis", 1e-7);
    vf_assert_eq_tol((n[1] * d[0] - n[0] * d[1]), rho * s * std::sin(t), "azimuth counts towards larger azimuth", 1e-7);
}
VF_CONTRACT(deflect) {
    double ph = vf_real("phi", -3, 3), ct = vf_real("costheta", -1, 1);
    vf_assume(ct < 1); vf_assume(ct > -1);
    double st = std::sqrt(1 - ct * ct);
    Cartesian3D d(st * std::cos(ph), st * std::sin(ph), ct);
    double c = vf_real("cos", -1, 1), t = vf_real("azimuth", 0, 6.28);
    vf_assume(c >= -1); vf_assume(c <= 1);
    deflected(d, c, t);
}
VF_CONTRACT(deflect_on_axis) {
    Cartesian3D d(0, 0, vf_bool("up") ? 1 : -1), n = d;
    double c = vf_real("cos", -1, 1), t = vf_real("azimuth", 0, 6.28);
    vf_assume(c >= -1); vf_assume(c <= 1);
    n.deflect(c, t);
    vf_assert_eq_tol(n * n, 1, "a deflected axis is a unit vector", 1e-9);
    vf_assert_eq_tol(2 + n * d, 2 + c, "the angle to the axis is the requested one", 1e-6);
}
VF_CONTRACT(no_deflection) {
    auto d = vec("ax", "ay", "az");
    auto n = d;
    n.deflect(1, 0);
    vf_assert(n == d, "no deflection keeps the direction");
}
VF_CONTRACT(vector_from_document) {
    double x = vf_real("x", -5, 5), y = vf_real("y", -5, 5), z = vf_real("z", -5, 5);
    nlohmann::json j;
    j.push_back(x); j.push_back(y); j.push_back(z);
    Cartesian3D c(j);
    Spherical3D s(j);
    vf_assert(c == Cartesian3D(x, y, z), "Cartesian vector from a document");
    vf_assert(s == Spherical3D(x, y, z), "spherical vector from a document");
    int bad = 0;
    nlohmann::json k;
    k.push_back(x); k.push_back(y);
    if (vf_bool("four")) { k.push_back(z); k.push_back(z); }
    try { Cartesian3D e(k); } catch (const std::invalid_argument&) { bad++; }
    try { Spherical3D e(k); } catch (const std::invalid_argument&) { bad++; }
    vf_assert(bad == 2, "a document without exactly three components is rejected");
}
