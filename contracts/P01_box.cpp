// VF-SOURCES: geometry/Box.cxx geometry/Geometry.cxx math/Cartesian3D.cxx math/Vector3D.cxx Constants.cxx
#include "vf.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/Constants.h"
#include <cmath>
#include <algorithm>
using namespace PROPOSAL;

// the samples of contracts on edges and corners are exactly representable (no rounding moves the ray off the edge)
static double exact(double x) { return vf_symbolic() ? x : std::round(x * 64) / 64; }
static double exact_power(double x) { return vf_symbolic() ? x : std::exp2(-std::floor(x * 4)); }
// one axis of the ray: the planes c + w/2 and c - w/2 are reached after the path lengths tp and tn
struct Axis1 { double c, w, p, d, near, far; bool parallel, between; };
enum Sense { up, down, parallel };
static Axis1 axis(const char* c, const char* w, const char* t, const char* d, Sense sign, bool ex = false) {
    Axis1 a;
    a.c = vf_real(c, -20, 20);
    if (ex) a.c = exact(a.c);
    double T = vf_real(w, 0.1, 20); // path length between the two planes
    if (ex) T = exact(T);
    vf_assume(T > 0);
    a.w = T;
    a.parallel = sign == parallel;
    double u = vf_real(t, -20, 20);
    if (ex) u = exact(u);
    if (a.parallel) {
        a.d = 0; a.p = a.c + u;
        vf_assume(2 * u != a.w); vf_assume(2 * u != -a.w); // not in the plane of a face
        a.between = -a.w < 2 * u && 2 * u < a.w;
        a.near = a.far = 0;
        return a;
    }
    double e = vf_real(d, 0.05, 1);
    if (ex) e = exact_power(e);
    a.w = T * e;
    vf_assume(e > 0);
    a.d = sign == down ? -e : e;
    // u: path length to the plane reached first
    a.near = u; a.far = u + T;
    a.p = sign == down ? a.c + a.w / 2 + u * e : a.c - a.w / 2 - u * e;
    a.between = true;
    return a;
}
static void box(Sense x, Sense y, Sense z) {
    Axis1 a[3] = {axis("cx", "wx", "tx", "dx", x), axis("cy", "wy", "ty", "dy", y), axis("cz", "wz", "tz", "dz", z)};
    bool any = false;
    for (int i = 0; i < 3; ++i) {
        if (a[i].parallel) continue;
        // general position: the ray meets no edge
        for (int j = 0; j < i; ++j) if (!a[j].parallel) {
            vf_assume(a[i].near != a[j].near); vf_assume(a[i].far != a[j].far);
            vf_assume(a[i].near != a[j].far); vf_assume(a[i].far != a[j].near);
        }
        any = true;
    }
    vf_assume(any);
    if (!vf_symbolic()) // the samples stay away from edges and from the precision
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            if (a[i].parallel || a[j].parallel) continue;
            if (i != j) vf_assume(std::fabs(a[i].near - a[j].near) > 1e-6 && std::fabs(a[i].far - a[j].far) > 1e-6 && std::fabs(a[i].near - a[j].far) > 1e-6);
            vf_assume(std::fabs(a[i].near - GEOMETRY_PRECISION) > 1e-10 && std::fabs(a[i].far - GEOMETRY_PRECISION) > 1e-10);
        }
    Box b(Cartesian3D(a[0].c, a[1].c, a[2].c), a[0].w, a[1].w, a[2].w);
    auto got = b.DistanceToBorder(Cartesian3D(a[0].p, a[1].p, a[2].p), Cartesian3D(a[0].d, a[1].d, a[2].d));
    // the border is crossed where a face plane is reached between the other two pairs of planes
    double t[6];
    int n = 0;
    for (int i = 0; i < 3; ++i) {
        if (a[i].parallel) continue;
        for (double x : {a[i].near, a[i].far}) {
            bool in = x >= GEOMETRY_PRECISION;
            for (int j = 0; in && j < 3; ++j) if (j != i) in = a[j].parallel ? a[j].between : a[j].near <= x && x <= a[j].far;
            if (in) t[n++] = x;
        }
    }
    double first = -1, second = -1;
    vf_assert(n <= 2, "a convex body is crossed at most twice");
    if (n == 1) first = t[0];
    if (n == 2) { first = t[0] < t[1] ? t[0] : t[1]; second = t[0] < t[1] ? t[1] : t[0]; }
    if (n == 2 && second - first < GEOMETRY_PRECISION) second = -1; // chord below the geometry precision
    vf_cover("reached");
    vf_assert_eq(got.first, first, "first distance is the next crossing of the box");
    vf_assert_eq(got.second, second, "second distance is where the box is left again");
}
VF_CONTRACT(box_up_up_up) { box(up, up, up); }
VF_CONTRACT(box_up_up_down) { box(up, up, down); }
VF_CONTRACT(box_up_down_up) { box(up, down, up); }
VF_CONTRACT(box_up_down_down) { box(up, down, down); }
VF_CONTRACT(box_down_up_up) { box(down, up, up); }
VF_CONTRACT(box_down_up_down) { box(down, up, down); }
VF_CONTRACT(box_down_down_up) { box(down, down, up); }
VF_CONTRACT(box_down_down_down) { box(down, down, down); }
static Sense any_sense(const char* n) { return (Sense)vf_choose(n, 3); }
VF_CONTRACT(box_parallel_x) { box(parallel, any_sense("sy"), any_sense("sz")); }
VF_CONTRACT(box_parallel_y) { box(any_sense("sx"), parallel, any_sense("sz")); }
VF_CONTRACT(box_parallel_z) { box(any_sense("sx"), any_sense("sy"), parallel); }
// rays through an edge: two pairs of planes are reached at the same time
VF_CONTRACT(box_edge) {
    Axis1 a[3] = {axis("cx", "wx", "tx", "dx", up, true), axis("cy", "wy", "ty", "dy", up, true), axis("cz", "wz", "tz", "dz", parallel, true)};
    vf_assume(a[2].between);
    bool in = vf_choose("edge", 2) == 0;
    if (in) { a[1].p += (a[1].near - a[0].near) * a[1].d; a[1].far += a[0].near - a[1].near; a[1].near = a[0].near; }
    else { a[1].p += (a[1].far - a[0].far) * a[1].d; a[1].near += a[0].far - a[1].far; a[1].far = a[0].far; }
    double n = in ? a[0].near : (a[0].near < a[1].near ? a[1].near : a[0].near);
    double f = in ? (a[0].far < a[1].far ? a[0].far : a[1].far) : a[0].far;
    vf_assume(f - n > 1e-6); // not grazing
    vf_assume(f > 1e-6); vf_assume(n > 1e-6 || n < -1e-6);
    double e = in ? a[0].far - a[1].far : a[0].near - a[1].near;
    vf_assume(e > 1e-6 || e < -1e-6);
    Box b(Cartesian3D(a[0].c, a[1].c, a[2].c), a[0].w, a[1].w, a[2].w);
    auto got = b.DistanceToBorder(Cartesian3D(a[0].p, a[1].p, a[2].p), Cartesian3D(a[0].d, a[1].d, a[2].d));
    vf_cover("reached");
    vf_assert_eq(got.first, n > 0 ? n : f, "first distance of a ray through an edge");
    vf_assert_eq(got.second, n > 0 ? f : -1, "second distance of a ray through an edge");
}
VF_CONTRACT(box_diagonal) {
    // from the inside towards a corner or an edge
    double w = exact(vf_real("w", 0.1, 10)), u = exact(vf_real("u", 0.1, 5));
    vf_assume(w > 0); vf_assume(u > 1e-6); vf_assume(w - u > 1e-6);
    double d = exact_power(vf_real("d", 0.1, 1)), dz = vf_choose("corner", 2) ? d : 0;
    vf_assume(d > 0);
    Box b(Cartesian3D(0, 0, 0), 2 * w * d, 2 * w * d, 2 * w * d);
    double h = (w - u) * d; // the corner is reached after the path length u
    auto got = b.DistanceToBorder(Cartesian3D(h, h, dz == 0 ? 0 : h), Cartesian3D(d, d, dz));
    vf_assert_eq(got.first, u, "distance to the edge or corner ahead");
    vf_assert_eq(got.second, -1, "a position inside has one distance");
}
