// VF-SOURCES: geometry/Sphere.cxx geometry/Geometry.cxx math/Cartesian3D.cxx math/Vector3D.cxx Constants.cxx
#include "vf.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/Constants.h"
#include <cmath>
using namespace PROPOSAL;

static Cartesian3D any_point(const char* x, const char* y, const char* z) {
    return Cartesian3D(vf_real(x, -20, 20), vf_real(y, -20, 20), vf_real(z, -20, 20));
}
static Cartesian3D any_direction() {
    double x = vf_real("dx", -1, 1), y = vf_real("dy", -1, 1), z = vf_real("dz", -1, 1);
    if (!vf_symbolic()) { double n = std::sqrt(x*x+y*y+z*z); vf_assume(n > 0.01); return Cartesian3D(x/n, y/n, z/n); }
    vf_assume(x * x + y * y + z * z == 1);
    return Cartesian3D(x, y, z);
}

// ray parameters beyond PREC at which |p + t d - c|^2 == r^2, sorted; returns their number
static int crossings(double B, double C, double r, double* t) {
    double det = B * B - (C - r * r);
    if (!(det > 0)) return 0;
    double s = std::sqrt(det);
    int n = 0;
    if (-B - s >= GEOMETRY_PRECISION) t[n++] = -B - s;
    if (-B + s >= GEOMETRY_PRECISION) t[n++] = -B + s;
    return n;
}

VF_CONTRACT(sphere_distance) {
    auto c = any_point("cx", "cy", "cz");
    auto p = any_point("px", "py", "pz");
    auto d = any_direction();
    double R = vf_real("R", 0, 15), r = vf_real("r", 0, 15);
    int hollow = vf_choose("hollow", 2);
    if (!hollow) r = 0; else vf_assume(0 < r && r < R);
    vf_assume(R > 0);
    Sphere s(c, R, r);
    auto got = s.DistanceToBorder(p, d);
    double ex = p.GetX() - c.GetX(), ey = p.GetY() - c.GetY(), ez = p.GetZ() - c.GetZ();
    double B = ex * d.GetX() + ey * d.GetY() + ez * d.GetZ(), C = ex * ex + ey * ey + ez * ez;
    double o[2], i[2];
    int no = crossings(B, C, R, o), ni = hollow ? crossings(B, C, r, i) : 0;
    double first = -1, second = -1;
    if (no == 2) {            // in front of the body: enters at o[0], leaves at cavity or far side
        first = o[0]; second = o[1];
        if (ni > 0 && i[0] < second) second = i[0];
    } else if (no == 1) {
        if (ni == 2) first = i[0];                       // inside the shell, heading for the cavity
        else if (ni == 1) { first = i[0]; second = o[0]; } // inside the cavity
        else first = o[0];
    }
    vf_cover("reached");
    vf_assert_eq(got.first, first, "first distance is the next crossing of the border");
    vf_assert_eq(got.second, second, "second distance is where the body is left again");
}
