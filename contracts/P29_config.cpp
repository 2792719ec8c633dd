// VF-SOURCES: geometry/Geometry.cxx geometry/GeometryFactory.cxx geometry/Sphere.cxx geometry/Box.cxx geometry/Cylinder.cxx density_distr/density_distr.cxx density_distr/density_exponential.cxx density_distr/density_homogeneous.cxx density_distr/density_polynomial.cxx density_distr/density_splines.cxx math/Function.cxx math/Spline.cxx math/Vector3D.cxx math/Cartesian3D.cxx EnergyCutSettings.cxx Constants.cxx
// VF-BOUNDED: [in=density_polynomial_config|density_spline_config] up to four coefficients, two to four support points
#include "vf.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/density_distr/density_distr.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/geometry/GeometryFactory.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Function.h"
#include "PROPOSAL/math/Spline.h"
#include <nlohmann/json.hpp>
#include <cmath>
#include <memory>
using namespace PROPOSAL;
using json = nlohmann::json;

static json without(const json& j, const std::string& key) {
    json k = json::object();
    for (auto it = j.begin(); it != j.end(); ++it) if (it.key() != key) k[it.key()] = it.value();
    return k;
}

static json triple(double x, double y, double z) { json j; j.push_back(x); j.push_back(y); j.push_back(z); return j; }
struct Place {
    double x, y, z; int hierarchy;
    Place() : x(vf_real("x", -100, 100)), y(vf_real("y", -100, 100)), z(vf_real("z", -100, 100)), hierarchy(0) {}
    Cartesian3D where() const { return Cartesian3D(x, y, z); }
    json document(const char* shape) {
        json j;
        j["shape"] = shape;
        j["origin"] = triple(x, y, z);
        if (vf_bool("hierarchy given")) { hierarchy = vf_int("hierarchy", 0, 50); j["hierarchy"] = hierarchy; }
        return j;
    }
};
static void same_geometry(const Geometry& g, Geometry& direct, const Place& p) {
    direct.SetHierarchy(p.hierarchy);
    vf_assert(g.GetPosition() == p.where(), "origin of the document");
    vf_assert((int)g.GetHierarchy() == p.hierarchy, "hierarchy of the document, 0 where omitted");
    vf_assert(g == direct, "geometry of a document equals the geometry built directly");
    vf_assert(!(g != direct), "geometry of a document is not different from the geometry built directly");
}
VF_CONTRACT(sphere_document) {
    Place p;
    double r = vf_real("radius", 1, 100), in = vf_real("inner", 0, 1);
    vf_assume(in >= 0); vf_assume(in <= r); vf_assume(r > 0);
    auto j = p.document(vf_bool("capital") ? "Sphere" : "sphere");
    j["outer_radius"] = r;
    if (vf_bool("inner given")) j["inner_radius"] = in; else in = 0;
    Sphere direct(p.where(), r, in);
    Sphere s(j);
    vf_assert_eq(s.GetRadius(), r, "radius of the document");
    vf_assert_eq(s.GetInnerRadius(), in, "inner radius of the document, 0 where omitted");
    same_geometry(s, direct, p);
    auto created = CreateGeometry(j);
    vf_assert(*created == s, "created geometry is the one of its shape");
    vf_assert(dynamic_cast<Sphere*>(created.get()) != nullptr, "created geometry is the one of its shape");
}
VF_CONTRACT(cylinder_document) {
    Place p;
    double r = vf_real("radius", 1, 100), in = vf_real("inner", 0, 1), h = vf_real("height", 0.1, 100);
    vf_assume(in >= 0); vf_assume(in < r); vf_assume(h > 0);
    auto j = p.document("cylinder");
    j["outer_radius"] = r; j["height"] = h;
    if (vf_bool("inner given")) j["inner_radius"] = in; else in = 0;
    Cylinder direct(p.where(), h, r, in);
    Cylinder c(j);
    vf_assert_eq(c.GetRadius(), r, "radius of the document");
    vf_assert_eq(c.GetInnerRadius(), in, "inner radius of the document, 0 where omitted");
    vf_assert_eq(c.GetZ(), h, "height of the document");
    same_geometry(c, direct, p);
    auto created = CreateGeometry(j);
    vf_assert(*created == c, "created geometry is the one of its shape");
    vf_assert(dynamic_cast<Cylinder*>(created.get()) != nullptr, "created geometry is the one of its shape");
}
VF_CONTRACT(box_document) {
    Place p;
    double l = vf_real("length", 0.1, 100), w = vf_real("width", 0.1, 100), h = vf_real("height", 0.1, 100);
    vf_assume(l > 0); vf_assume(w > 0); vf_assume(h > 0);
    auto j = p.document("box");
    j["length"] = l; j["width"] = w; j["height"] = h;
    Box direct(p.where(), l, w, h);
    Box b(j);
    vf_assert_eq(b.GetX(), l, "length of the document");
    vf_assert_eq(b.GetY(), w, "width of the document");
    vf_assert_eq(b.GetZ(), h, "height of the document");
    same_geometry(b, direct, p);
    auto created = CreateGeometry(j);
    vf_assert(*created == b, "created geometry is the one of its shape");
    vf_assert(dynamic_cast<Box*>(created.get()) != nullptr, "created geometry is the one of its shape");
}
VF_CONTRACT(geometry_whole_numbers) {
    int r = vf_int("radius", 2, 50), in = vf_int("inner", 0, 1), h = vf_int("height", 1, 50), x = vf_int("x", -5, 5);
    json j;
    j["origin"] = json::array({x, 0, 1});
    j["outer_radius"] = r; j["inner_radius"] = in; j["height"] = h; j["length"] = r; j["width"] = in + 1;
    j["shape"] = "sphere";
    Cartesian3D at(x, 0, 1);
    vf_assert(Sphere(j) == Sphere(at, r, in), "sphere of whole numbers");
    j["shape"] = "cylinder";
    vf_assert(Cylinder(j) == Cylinder(at, h, r, in), "cylinder of whole numbers");
    j["shape"] = "box";
    vf_assert(Box(j) == Box(at, r, in + 1, h), "box of whole numbers");
}
template <class F> static bool rejected(F&& f) {
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
VF_CONTRACT(geometry_documents_rejected) {
    double r = vf_real("radius", -5, 5), in = vf_real("inner", -5, 5), h = vf_real("height", -5, 5), w = vf_real("width", -5, 5);
    json j;
    const char* shapes[] = {"sphere", "cylinder", "box"};
    int shape = vf_choose("shape", 3), miss = vf_choose("missing", 8);
    // 0-4: a key is left out, 5: a key is not a number, 6: the origin is not a vector, 7: complete
    if (miss != 0) j["shape"] = shapes[shape];
    if (miss != 1) { if (miss == 6) j["origin"] = "here"; else j["origin"] = triple(0, 1, 2); }
    if (miss != 2) j["outer_radius"] = r;
    if (miss != 3) { if (miss == 5) j["height"] = "high"; else j["height"] = h; }
    if (miss != 4) j["width"] = w;
    j["length"] = 1.; j["inner_radius"] = in;
    bool bad = miss == 0 || miss == 1 || miss == 6;
    if (shape == 0) bad = bad || miss == 2 || in < 0 || r < in;
    if (shape == 1) bad = bad || miss == 2 || miss == 3 || miss == 5 || in < 0 || r <= in || h <= 0;
    if (shape == 2) bad = bad || miss == 3 || miss == 4 || miss == 5 || h < 0 || w < 0;
    vf_assert(rejected([&] { CreateGeometry(j); }) == bad, "exactly the incomplete and invalid geometry documents are rejected");
}
VF_CONTRACT(geometry_other_documents) {
    json j;
    vf_assert(rejected([&] { CreateGeometry(j); }), "an empty document is rejected");
    vf_assert(rejected([&] { Sphere s(j); }), "an empty document is rejected");
    vf_assert(rejected([&] { Cylinder s(j); }), "an empty document is rejected");
    vf_assert(rejected([&] { Box s(j); }), "an empty document is rejected");
    j["shape"] = "pyramid"; j["origin"] = triple(0, 0, 0);
    j["outer_radius"] = 1.; j["length"] = 1.; j["width"] = 1.; j["height"] = 1.;
    vf_assert(rejected([&] { CreateGeometry(j); }), "an unknown shape is rejected");
    j["outer_radius"] = "wide"; j["shape"] = vf_bool("cylinder") ? "cylinder" : "sphere";
    vf_assert(rejected([&] { CreateGeometry(j); }), "a radius which is not a number is rejected");
}

// ---- density profiles
struct Axes {
    double x, y, z, u, v, w;
    bool radial;
    Axes() : x(vf_real("fp0x", -10, 10)), y(vf_real("fp0y", -10, 10)), z(vf_real("fp0z", -10, 10)),
             u(vf_real("axx", -1, 1)), v(vf_real("axy", -1, 1)), w(vf_real("axz", -1, 1)), radial(vf_bool("radial")) {}
    void document(json& j) const {
        j["fp0"] = triple(x, y, z);
        if (radial) j["axis_type"] = "radial";
        else { j["axis_type"] = "cartesian"; j["fAxis"] = triple(u, v, w); }
    }
    std::unique_ptr<Axis> direct() const {
        if (radial) return std::unique_ptr<Axis>(new RadialAxis(Cartesian3D(x, y, z)));
        return std::unique_ptr<Axis>(new CartesianAxis(Cartesian3D(u, v, w), Cartesian3D(x, y, z)));
    }
};
VF_CONTRACT(axis_document) {
    Axes a;
    json j;
    a.document(j);
    auto d = a.direct();
    std::unique_ptr<Axis> c(a.radial ? (Axis*)new RadialAxis(j) : (Axis*)new CartesianAxis(j));
    vf_assert(*c == *d, "axis of a document equals the axis built directly");
    vf_assert(c->GetFp0() == Cartesian3D(a.x, a.y, a.z), "reference point of the document");
    if (!a.radial) vf_assert(static_cast<CartesianAxis&>(*c).GetAxis() == Cartesian3D(a.u, a.v, a.w), "axis of the document");
    int bad = 0;
    json k = without(j, "fp0");
    bad += rejected([&] { RadialAxis r(k); });
    bad += rejected([&] { CartesianAxis r(k); });
    k = without(j, "fAxis");
    bad += rejected([&] { CartesianAxis r(k); });
    k = j;
    k["fp0"] = json::array({1., 2.});
    bad += rejected([&] { RadialAxis r(k); });
    vf_assert(bad == 4, "an incomplete axis document is rejected");
}
static double positive_mass() { double m = vf_real("mass", 0.1, 10); vf_assume(m > 0); return m; }
VF_CONTRACT(density_homogeneous_config) {
    double m = positive_mass();
    json j;
    j["type"] = "homogeneous"; j["mass_density"] = m;
    auto d = CreateDensityDistribution(j);
    vf_assert(*d == Density_homogeneous(m), "homogeneous density of a document");
    vf_assert_eq(d->Evaluate(Cartesian3D(1, 2, 3)), m, "homogeneous density has the mass density of the document");
    j = without(j, "mass_density");
    vf_assert(rejected([&] { CreateDensityDistribution(j); }), "a density without a mass density is rejected");
    j["mass_density"] = "heavy";
    vf_assert(rejected([&] { CreateDensityDistribution(j); }), "a mass density which is not a number is rejected");
}
VF_CONTRACT(density_exponential_config) {
    Axes a;
    double m = positive_mass(), s = 1, d0 = 0;
    json j;
    j["type"] = "exponential"; j["mass_density"] = m;
    a.document(j);
    if (vf_bool("sigma given")) { s = vf_real("sigma", 0.1, 10); vf_assume(s > 0); j["sigma"] = s; }
    if (vf_bool("d0 given")) { d0 = vf_real("d0", -5, 5); j["d0"] = d0; }
    auto d = CreateDensityDistribution(j);
    Density_exponential direct(*a.direct(), s, d0, m);
    vf_assert(*d == direct, "exponential density of a document");
    auto e = dynamic_cast<Density_exponential*>(d.get());
    vf_assert(e != nullptr, "exponential density of a document");
    vf_assert_eq(e->sigma_, s, "scale of the document, 1 where omitted");
    vf_assert_eq(e->d0_, d0, "shift of the document, 0 where omitted");
    vf_assert_eq(e->massDensity_, m, "mass density of the document");
    vf_assert(*e->axis_ == *a.direct(), "axis of the document");
}
VF_CONTRACT(density_polynomial_config) {
    Axes a;
    double m = positive_mass();
    int n = 1 + vf_choose("coefficients", 4);
    std::vector<double> c;
    static const char* names[] = {"c0", "c1", "c2", "c3"};
    json j, list;
    for (int i = 0; i < n; i++) { c.push_back(vf_real(names[i], -3, 3)); list.push_back(c[i]); }
    j["type"] = "polynomial"; j["mass_density"] = m; j["coefficients"] = list;
    a.document(j);
    Density_polynomial direct(*a.direct(), Polynom(c), m);
    auto d = CreateDensityDistribution(j);
    vf_assert(*d == direct, "polynomial density of a document");
    double t = vf_real("t", -2, 2);
    auto p = dynamic_cast<Density_polynomial*>(d.get());
    vf_assert(p != nullptr, "polynomial density of a document");
    vf_assert_eq(p->density_distribution(t), direct.density_distribution(t), "polynomial of the document");
    vf_assert_eq(p->antiderived_density_distribution(t), direct.antiderived_density_distribution(t), "antiderivative of the polynomial of the document");
}
VF_CONTRACT(density_spline_config) {
    bool cubic = vf_bool("cubic");
    double m = positive_mass();
    int n = 2 + vf_choose("points", 3);
    double x0 = vf_real("x0", -5, 5), y0 = vf_real("y0", 0, 5);
    std::vector<double> x{x0}, y{y0};
    static const char* dn[] = {"d1", "d2", "d3"};
    static const char* yn[] = {"y1", "y2", "y3"};
    json jx, jy, j;
    jx.push_back(x0); jy.push_back(y0);
    for (int i = 0; i + 1 < n; i++) {
        double d = vf_real(dn[i], 0.1, 3);
        vf_assume(d > 0);
        x.push_back(x[i] + d); y.push_back(vf_real(yn[i], 0, 5));
        jx.push_back(x[i + 1]); jy.push_back(y[i + 1]);
    }
    j["type"] = "spline"; j["mass_density"] = m; j["spline_type"] = cubic ? "cubic" : "linear"; j["x"] = jx; j["y"] = jy;
    j["axis_type"] = "cartesian"; j["fp0"] = triple(0, 0, 0); j["fAxis"] = triple(1, 0, 0);
    CartesianAxis axis(Cartesian3D(1, 0, 0), Cartesian3D(0, 0, 0));
    auto d = CreateDensityDistribution(j);
    if (cubic) vf_assert(*d == Density_splines(axis, Cubic_Spline(x, y), m), "cubic spline density of a document");
    else vf_assert(*d == Density_splines(axis, Linear_Spline(x, y), m), "linear spline density of a document");
    auto s = dynamic_cast<Density_splines*>(d.get());
    vf_assert(s != nullptr, "spline density of a document");
    std::unique_ptr<Spline> integral(cubic ? (Spline*)new Cubic_Spline(x, y) : (Spline*)new Linear_Spline(x, y));
    integral->Antiderivative(0);
    vf_assert(*s->integrated_spline_ == *integral, "integrated spline of the document");
}
VF_CONTRACT(density_documents_rejected) {
    int type = vf_choose("type", 4), miss = vf_choose("missing", 12);
    const char* types[] = {"homogeneous", "exponential", "polynomial", "spline"};
    json j;
    j["mass_density"] = 1.5; j["axis_type"] = "cartesian"; j["fp0"] = triple(0, 0, 0); j["fAxis"] = triple(1, 0, 0);
    j["type"] = types[type]; j["coefficients"] = json::array({1., 2.});
    j["spline_type"] = vf_bool("cubic") ? "cubic" : "linear"; j["x"] = triple(1, 2, 3); j["y"] = triple(4, 5, 7);
    bool bad = true;
    switch (miss) {
    case 0: j = without(j, "type"); break;
    case 1: j["type"] = "layered"; break;
    case 2: j = without(j, "mass_density"); break;
    case 3: j["mass_density"] = "heavy"; break;
    case 4: j = without(j, "axis_type"); bad = type != 0; break;
    case 5: j["axis_type"] = "skew"; bad = type != 0; break;
    case 6: j = without(j, "coefficients"); bad = type == 2; break;
    case 7: j["coefficients"] = 3.; bad = type == 2; break;
    case 8: j = without(j, "spline_type"); bad = type == 3; break;
    case 9: j["x"] = json::array({1., 2.}); bad = type == 3; break;
    case 10: j = without(j, vf_bool("no x") ? "x" : "y"); bad = type == 3; break;
    case 11: bad = false; break;
    }
    vf_assert(rejected([&] { CreateDensityDistribution(j); }) == bad, "exactly the incomplete and invalid density documents are rejected");
}
VF_CONTRACT(density_without_points) {
    json j, none = json::array();
    j["mass_density"] = 1.5; j["axis_type"] = "radial"; j["fp0"] = triple(0, 0, 0);
    if (vf_bool("spline")) {
        j["type"] = "spline"; j["spline_type"] = vf_bool("cubic") ? "cubic" : "linear"; j["x"] = none; j["y"] = none;
        if (vf_bool("one")) { j["x"].push_back(1.); j["y"].push_back(1.); }
    } else {
        j["type"] = "polynomial"; j["coefficients"] = none;
    }
    vf_assert(rejected([&] { CreateDensityDistribution(j); }), "a profile without coefficients or with less than two points is rejected");
}

// ---- cuts
VF_CONTRACT(cut_document) {
    double e = vf_real("ecut", -10, 1000), v = vf_real("vcut", -0.5, 1.5);
    bool cr = vf_bool("cont_rand"), inf = vf_bool("infinite");
    json j;
    if (inf) j["e_cut"] = vf_bool("long") ? "Infinity" : "inf"; else j["e_cut"] = e;
    j["v_cut"] = v; j["cont_rand"] = cr;
    bool good = (inf || e > 0) && v > 0 && v <= 1;
    if (good) {
        EnergyCutSettings c(j), direct(inf ? INF : e, v, cr);
        vf_assert(c == direct, "cut of a document equals the cut built directly");
        vf_assert_eq(c.GetVcut(), v, "relative cut of the document");
        vf_assert(c.GetContRand() == cr, "continuous randomization of the document");
    } else {
        vf_assert(rejected([&] { EnergyCutSettings c(j); }), "an invalid cut is rejected");
    }
    json k = j;
    k["e_cut"] = "large";
    vf_assert(rejected([&] { EnergyCutSettings c(k); }), "a cut which is not a number is rejected");
    k = j;
    k["v_cut"] = "half";
    vf_assert(rejected([&] { EnergyCutSettings c(k); }), "a cut which is not a number is rejected");
    k = without(j, vf_bool("no e") ? "e_cut" : "v_cut");
    vf_assert(rejected([&] { EnergyCutSettings c(k); }), "an incomplete cut is rejected");
}
