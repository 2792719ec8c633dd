// VF-SOURCES: geometry/Sphere.cxx geometry/Box.cxx geometry/Cylinder.cxx geometry/Geometry.cxx math/Cartesian3D.cxx math/Vector3D.cxx Constants.cxx
#include "vf.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/Constants.h"
#include <cmath>
using namespace PROPOSAL;
using Loc = Geometry::ParticleLocation;

// a body with arbitrary border distances ahead and behind
struct AnyBody : Geometry {
    Cartesian3D pos, dir;
    double f1, f2, b1, b2;
    AnyBody(const Vector3D& c) : Geometry("any", c) {}
    bool compare(const Geometry&) const override { return true; }
    void print(std::ostream&) const override {}
    std::pair<double, double> DistanceToBorder(const Vector3D& p, const Vector3D& d) const override {
        auto q = Cartesian3D(p), e = Cartesian3D(d);
        vf_assert(vf_same_real(q.GetX(), pos.GetX()) && vf_same_real(q.GetY(), pos.GetY()) && vf_same_real(q.GetZ(), pos.GetZ()), "distances are taken from the given position");
        bool ahead = e.GetX() == dir.GetX() && e.GetY() == dir.GetY() && e.GetZ() == dir.GetZ();
        if (!ahead) vf_assert(e.GetX() == -dir.GetX() && e.GetY() == -dir.GetY() && e.GetZ() == -dir.GetZ(), "distances are taken along the ray");
        return ahead ? std::make_pair(f1, f2) : std::make_pair(b1, b2);
    }
};
static Cartesian3D point(const char* x, const char* y, const char* z) {
    return Cartesian3D(vf_real(x, -20, 20), vf_real(y, -20, 20), vf_real(z, -20, 20));
}
static AnyBody any_body() {
    AnyBody g(point("cx", "cy", "cz"));
    g.pos = point("px", "py", "pz");
    g.dir = Cartesian3D(vf_real("dx", 0.1, 1), vf_real("dy", -1, 1), vf_real("dz", -1, 1));
    vf_assume(g.dir.GetX() > 0);
    double* d[4] = {&g.f1, &g.f2, &g.b1, &g.b2};
    const char* n[4] = {"f1", "f2", "b1", "b2"};
    for (int i = 0; i < 4; ++i) *d[i] = -1;
    int cf = vf_choose("ahead", 3), cb = vf_choose("behind", 3); // crossings ahead and behind
    for (int i = 0; i < 2; ++i) {
        if (i < cf) { *d[i] = vf_real(n[i], 0.1, 10); vf_assume(*d[i] > 0); }
        if (i < cb) { *d[2 + i] = vf_real(n[2 + i], 0.1, 10); vf_assume(*d[2 + i] > 0); }
    }
    return g;
}
VF_CONTRACT(location_classes) {
    auto g = any_body();
    bool in = g.IsInside(g.pos, g.dir), front = g.IsInfront(g.pos, g.dir), behind = g.IsBehind(g.pos, g.dir);
    vf_assert((in ? 1 : 0) + (front ? 1 : 0) + (behind ? 1 : 0) == 1, "exactly one of inside, in front and behind");
    vf_assert(in == (g.f1 > 0 && g.f2 < 0), "inside: one crossing ahead");
    vf_assert(front == (g.f1 > 0 && g.f2 > 0), "in front: two crossings ahead");
    vf_assert(behind == (g.f1 < 0), "behind: no crossing ahead");
    auto l = g.GetLocation(g.pos, g.dir);
    vf_assert((l == Loc::InsideGeometry) == in && (l == Loc::InfrontGeometry) == front && (l == Loc::BehindGeometry) == behind, "the location agrees with the predicates");
}
VF_CONTRACT(location_enter_leave) {
    auto g = any_body();
    vf_assert(g.IsEntering(g.pos, g.dir) == (g.f1 > 0 && g.f2 < 0 && g.b1 < 0), "entering: one crossing ahead, none behind");
    vf_assert(g.IsLeaving(g.pos, g.dir) == (g.f1 < 0 && g.b1 > 0 && g.b2 < 0), "leaving: no crossing ahead, one behind");
    vf_assert(!(g.IsEntering(g.pos, g.dir) && g.IsLeaving(g.pos, g.dir)), "never entering and leaving");
}
VF_CONTRACT(location_reversed) {
    auto g = any_body();
    auto back = -g.dir;
    if (vf_symbolic() || true) {
        bool e = g.IsEntering(g.pos, g.dir), l = g.IsLeaving(g.pos, g.dir);
        g.dir = back; std::swap(g.f1, g.b1); std::swap(g.f2, g.b2);
        vf_assert(g.IsLeaving(g.pos, back) == e && g.IsEntering(g.pos, back) == l, "a reversed entering ray leaves");
    }
}
VF_CONTRACT(location_closest_approach) {
    auto g = any_body();
    auto c = g.position_;
    vf_assert_eq(g.DistanceToClosestApproach(g.pos, g.dir) + 1000, (c.GetX() - g.pos.GetX()) * g.dir.GetX() + (c.GetY() - g.pos.GetY()) * g.dir.GetY() + (c.GetZ() - g.pos.GetZ()) * g.dir.GetZ() + 1000,
        "closest approach is the projection of the centre onto the ray");
}
// on the border of a body without cavity exactly one of entering and leaving holds
static Cartesian3D direction() {
    auto d = Cartesian3D(vf_real("dx", -1, 1), vf_real("dy", -1, 1), vf_real("dz", -1, 1));
    if (!vf_symbolic()) { double b = std::sqrt(d * d); vf_assume(b > 0.01); return d * (1 / b); }
    vf_assume(d.GetX() * d.GetX() + d.GetY() * d.GetY() + d.GetZ() * d.GetZ() == 1);
    return d;
}
static void on_border(const Geometry& g, const Cartesian3D& p, const Cartesian3D& d, bool inward) {
    vf_cover("reached");
    vf_assert(g.IsEntering(p, d) == inward, "on the border: entering if the ray points inward");
    vf_assert(g.IsLeaving(p, d) == !inward, "on the border: leaving if the ray points outward");
    vf_assert(g.IsInside(p, d) == inward && g.IsBehind(p, d) == !inward, "on the border: inside if the ray points inward");
}
VF_CONTRACT(border_sphere) {
    auto c = point("cx", "cy", "cz");
    auto q = point("qx", "qy", "qz"); // from the centre to the border
    auto d = direction();
    double R = std::sqrt(q.GetX() * q.GetX() + q.GetY() * q.GetY() + q.GetZ() * q.GetZ());
    vf_assume(R > 0);
    double m = q.GetX() * d.GetX() + q.GetY() * d.GetY() + q.GetZ() * d.GetZ(); // half of the chord
    bool inward = vf_choose("sense", 2) == 0;
    if (inward) vf_assume(-2 * m > GEOMETRY_PRECISION); else vf_assume(2 * m > GEOMETRY_PRECISION);
    if (!vf_symbolic()) vf_assume(std::fabs(m) > 1e-2 * R);
    Sphere s(c, R, 0);
    on_border(s, c + q, d, inward);
}
static void apart(double a, double b) { // rounding decides at edges: not sampled
    if (!vf_symbolic()) vf_assume(std::fabs(a - b) > 1e-6);
}
// position on a face: axis i is at its border (near = 0), the others strictly between their planes
static void border_box(int face) {
    double c[3] = {vf_real("cx", -20, 20), vf_real("cy", -20, 20), vf_real("cz", -20, 20)}, w[3], p[3], d[3];
    const char* nw[3] = {"wx", "wy", "wz"}; const char* nd[3] = {"dx", "dy", "dz"}; const char* nu[3] = {"ux", "uy", "uz"};
    bool inward = vf_choose("sense", 2) == 0, upper = vf_choose("face", 2) == 0;
    for (int i = 0; i < 3; ++i) {
        double e = vf_real(nd[i], 0.05, 1);
        vf_assume(e > 0);
        if (i == face) {
            double T = vf_real(nw[i], 0.1, 20);
            vf_assume(T > GEOMETRY_PRECISION);
            w[i] = T * e;
            p[i] = upper ? c[i] + 0.5 * w[i] : c[i] - 0.5 * w[i];
            d[i] = inward == upper ? -e : e;
        } else { // path lengths to the planes ahead and behind
            double a = vf_real(nw[i], 0.1, 20), b = vf_real(nu[i], 0.1, 20);
            vf_assume(a > GEOMETRY_PRECISION); vf_assume(b > GEOMETRY_PRECISION);
            w[i] = (a + b) * e;
            p[i] = c[i] + (b - a) / 2 * e;
            d[i] = e;
        }
    }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (double s : {-1., 1.}) for (double t : {-1., 1.})
        if (i < j) apart((p[i] - c[i] + s * w[i] / 2) / d[i], (p[j] - c[j] + t * w[j] / 2) / d[j]);
    Box g(Cartesian3D(c[0], c[1], c[2]), w[0], w[1], w[2]);
    on_border(g, Cartesian3D(p[0], p[1], p[2]), Cartesian3D(d[0], d[1], d[2]), inward);
}
VF_CONTRACT(border_box_x) { border_box(0); }
VF_CONTRACT(border_box_y) { border_box(1); }
VF_CONTRACT(border_box_z) { border_box(2); }
static double away(double t) { // path lengths from the border stay away from the precision
    vf_assume(t > GEOMETRY_PRECISION);
    return t;
}
static void border_cylinder(bool mantle) {
    double cx = vf_real("cx", -10, 10), cy = vf_real("cy", -10, 10), cz = vf_real("cz", -10, 10);
    double dx = vf_real("dx", -1, 1), dy = vf_real("dy", 0.05, 1), e = vf_real("dz", 0.05, 1), q = dx * dx + dy * dy;
    vf_assume(q > 0); vf_assume(e > 0);
    double k = vf_real("k", -2, 2); // distance to the axis at the closest approach
    bool inward = vf_choose("sense", 2) == 0, up = vf_choose("dir", 2) == 0;
    double a = away(vf_real("a", 0.1, 10)), b = away(vf_real("b", 0.1, 10)), h, m, near, T;
    if (mantle) { // path lengths to the plates behind and ahead: a and b, half chord h
        h = away(vf_real("h", 0.1, 10));
        m = inward ? h : -h;
        near = -a; T = a + b;
    } else { // path lengths to the mantle behind and ahead: a and b
        h = (a + b) / 2; m = (b - a) / 2;
        T = away(vf_real("T", 0.1, 10));
        near = inward ? 0 : -T;
    }
    for (double s : {-1., 1.}) { apart(m + s * h, near); apart(m + s * h, near + T); }
    double R = std::sqrt(q * (k * k + h * h)), height = T * e;
    double pz = up ? cz - 0.5 * height - near * e : cz + 0.5 * height + near * e;
    Cylinder g(Cartesian3D(cx, cy, cz), height, R, 0);
    on_border(g, Cartesian3D(cx - m * dx - k * dy, cy - m * dy + k * dx, pz), Cartesian3D(dx, dy, up ? e : -e), inward);
}
VF_CONTRACT(border_cylinder_mantle) { border_cylinder(true); }
VF_CONTRACT(border_cylinder_plate) { border_cylinder(false); }
