// VF-SOURCES: geometry/Cylinder.cxx geometry/Geometry.cxx math/Cartesian3D.cxx math/Vector3D.cxx Constants.cxx
#include "vf.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/Constants.h"
#include <cmath>
#include <algorithm>
#include <vector>
using namespace PROPOSAL;

enum Sense { up, down, horizontal };
enum Hole { solid, hit, missed };

// the distances for a ray whose material is the union of at most two ordered path intervals
struct Border {
    double first = -1, second = -1;
    bool done = false;
    void material(double lo, double hi) {
        if (done || !(lo < hi) || !(hi >= GEOMETRY_PRECISION)) return;
        done = true;
        if (lo >= GEOMETRY_PRECISION) { first = lo; second = hi; } else first = hi;
    }
};
static void away(double t) { 
    // the samples stay away from the precision, where rounding decides
    if (!vf_symbolic()) vf_assume(std::fabs(t - GEOMETRY_PRECISION) > 1e-6);
}
static void apart(double a, double b) {
    vf_assume(a != b);
    if (!vf_symbolic()) vf_assume(std::fabs(a - b) > 1e-5);
}
enum Part { everywhere, plate_ahead, plate_behind };
static void cylinder(Sense z, Hole hole, Part part = everywhere) {
    double cx = vf_real("cx", -10, 10), cy = vf_real("cy", -10, 10), cz = vf_real("cz", -10, 10);
    double dx = vf_real("dx", -1, 1), dy = vf_real("dy", 0.05, 1);
    double q = dx * dx + dy * dy;
    vf_assume(q > 0);
    double m = vf_real("m", -10, 10); // path length to the closest approach to the axis
    double k = vf_real("k", -2, 2), h = vf_real("h", 0.1, 10); // distance of the axis, half chord (path lengths)
    vf_assume(h > 0);
    double R = std::sqrt(q * (k * k + h * h));
    double g = 0, r = 0;
    if (hole == hit) { g = vf_real("g", 0.05, 8); vf_assume(0 < g); vf_assume(g < h); r = std::sqrt(q * (k * k + g * g)); }
    if (hole == missed) { double w = vf_real("w", 0.1, 4); vf_assume(0 < w); vf_assume(w < k * k); r = std::sqrt(q * w); }
    double x = cx - m * dx - k * dy, y = cy - m * dy + k * dx;
    double near, far, pz, dz, height;
    if (z == horizontal) {
        height = vf_real("height", 0.1, 10); vf_assume(height > 0);
        double o = vf_real("oz", -10, 10);
        apart(2 * o, height); apart(2 * o, -height);
        pz = cz + o; dz = 0;
        bool in = -height < 2 * o && 2 * o < height;
        near = m - 2 * h; far = m + 2 * h;
        if (!in) far = near;
    } else {
        double e = vf_real("dz", 0.05, 1), T = vf_real("T", 0.1, 10);
        vf_assume(e > 0); vf_assume(T > 0);
        near = vf_real("near", -10, 10); far = near + T;
        if (part == plate_ahead) vf_assume(near > 0);
        if (part == plate_behind) vf_assume(near <= 0);
        height = T * e;
        dz = z == up ? e : -e;
        pz = z == up ? cz - 0.5 * height - near * e : cz + 0.5 * height + near * e;
        away(near); away(far);
        apart(near, m + h); apart(far, m - h);
        if (hole == hit) { apart(near, m - g); apart(far, m + g); }
        if (!vf_symbolic()) { apart(near, m - h); apart(far, m + h); apart(near, m + g); apart(far, m - g); }
    }
    away(m - h); away(m + h); away(m - g); away(m + g);
    if (!vf_symbolic()) { vf_assume(h > 1e-3 && (hole != hit || g > 1e-3)); }
    Cylinder c(Cartesian3D(cx, cy, cz), height, R, r);
    auto got = c.DistanceToBorder(Cartesian3D(x, y, pz), Cartesian3D(dx, dy, dz));
    Border want;
    if (hole == hit) {
        want.material(near > m - h ? near : m - h, far < m - g ? far : m - g);
        want.material(near > m + g ? near : m + g, far < m + h ? far : m + h);
    } else
        want.material(near > m - h ? near : m - h, far < m + h ? far : m + h);
    vf_cover("reached");
    vf_assert_eq(got.first, want.first, "first distance is the next crossing of the cylinder");
    vf_assert_eq(got.second, want.second, "second distance is where the cylinder is left again");
}
VF_CONTRACT(cylinder_solid_up) { cylinder(up, solid); }
VF_CONTRACT(cylinder_solid_down) { cylinder(down, solid); }
VF_CONTRACT(cylinder_solid_horizontal) { cylinder(horizontal, solid); }
VF_CONTRACT(cylinder_hollow_up_ahead) { cylinder(up, hit, plate_ahead); }
VF_CONTRACT(cylinder_hollow_up_behind) { cylinder(up, hit, plate_behind); }
VF_CONTRACT(cylinder_hollow_down_ahead) { cylinder(down, hit, plate_ahead); }
VF_CONTRACT(cylinder_hollow_down_behind) { cylinder(down, hit, plate_behind); }
VF_CONTRACT(cylinder_hollow_horizontal) { cylinder(horizontal, hit); }
VF_CONTRACT(cylinder_missed_up) { cylinder(up, missed); }
VF_CONTRACT(cylinder_missed_down) { cylinder(down, missed); }
VF_CONTRACT(cylinder_missed_horizontal) { cylinder(horizontal, missed); }
VF_CONTRACT(cylinder_parallel) {
    // along the axis: only the end plates are crossed
    double cx = vf_real("cx", -10, 10), cy = vf_real("cy", -10, 10), cz = vf_real("cz", -10, 10);
    double R = vf_real("R", 0.1, 10), r = vf_choose("hollow", 2) ? vf_real("r", 0.1, 10) : 0;
    vf_assume(0 <= r); vf_assume(r < R);
    double ox = vf_real("ox", -10, 10), oy = vf_real("oy", -10, 10);
    double rho = std::sqrt(ox * ox + oy * oy);
    double e = vf_real("dz", 0.05, 1), T = vf_real("T", 0.1, 10);
    vf_assume(e > 0); vf_assume(T > 0);
    double near = vf_real("near", -10, 10), far = near + T, height = T * e;
    away(near); away(far);
    if (!vf_symbolic()) vf_assume(std::fabs(rho - R) > 1e-6 && std::fabs(rho - r) > 1e-6);
    bool u = vf_choose("sense", 2) == 0;
    double pz = u ? cz - 0.5 * height - near * e : cz + 0.5 * height + near * e;
    Cylinder c(Cartesian3D(cx, cy, cz), height, R, r);
    auto got = c.DistanceToBorder(Cartesian3D(cx + ox, cy + oy, pz), Cartesian3D(0, 0, u ? e : -e));
    Border want;
    if (r <= rho && rho <= R) want.material(near, far);
    vf_cover("reached");
    vf_assert_eq(got.first, want.first, "first distance is the next crossing of the cylinder");
    vf_assert_eq(got.second, want.second, "second distance is where the cylinder is left again");
}
