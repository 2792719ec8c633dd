// VF-SOURCES: math/Function.cxx math/Spline.cxx
// VF-BOUNDED: polynomials up to degree 7, splines through up to 5 points (arbitrary coefficients, support points and arguments)
#include "common.hpp"
#include "PROPOSAL/math/Function.h"
#include "PROPOSAL/math/Spline.h"
#include <cmath>

// compared on an absolute scale of one where the code is replayed (values may cancel to zero)
static void near(double a, double b, const char* name) { vf_assert_eq(a + 1, b + 1, name); }
static const char* const c_name[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7"};
static std::vector<double> coefficients(int n) {
    std::vector<double> c;
    for (int i = 0; i < n; ++i) c.push_back(vf_real(c_name[i], -3, 3));
    return c;
}
static double power(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
static double value(const std::vector<double>& c, double x) {
    double r = 0;
    for (unsigned i = 0; i < c.size(); ++i) r += c[i] * power(x, i);
    return r;
}
VF_CONTRACT(polynom_evaluate) {
    auto c = coefficients(1 + vf_choose("degree", 8));
    double x = vf_real("x", -3, 3);
    Polynom p(c);
    near(p.evaluate(x), value(c, x), "value is the sum of coefficients times powers");
    vf_assert_eq(p.GetFunction()(x), value(c, x), "function object evaluates the polynomial");
    auto stored = p.GetCoefficient();
    vf_assert(stored.size() == c.size(), "number of coefficients");
    for (unsigned i = 0; i < c.size(); ++i) vf_assert_eq(stored[i], c[i], "coefficients are returned in order");
}
VF_CONTRACT(polynom_calculus) {
    auto c = coefficients(1 + vf_choose("degree", 8));
    double x = vf_real("x", -3, 3), k = vf_real("constant", -3, 3);
    Polynom p(c);
    double d = 0, a = k;
    for (unsigned i = 0; i < c.size(); ++i) {
        if (i) d += c[i] * i * power(x, i - 1);
        a += c[i] * power(x, i + 1) / (i + 1);
    }
    near(p.GetDerivative().evaluate(x), d, "derivative");
    near(p.GetAntiderivative(k).evaluate(x), a, "antiderivative with the given constant");
    near(p.GetAntiderivative(k).GetDerivative().evaluate(x), p.evaluate(x), "derivative of the antiderivative is the polynomial");
}
VF_CONTRACT(polynom_shift) {
    auto c = coefficients(1 + vf_choose("degree", 8));
    double x = vf_real("x", -3, 3), s = vf_real("shift", -3, 3);
    bool tiny = std::fabs(s) <= GEOMETRY_PRECISION;
    Polynom p(c), q(p), r(std::vector<double>{1});
    r = p;
    p.shift(s);
    vf_cover("reached");
    near(p.evaluate(x), value(c, tiny ? x : x + s), "shifted polynomial at x is the polynomial at x + shift");
    near(q.evaluate(x), value(c, x), "shifting does not change a copy made before");
    near(r.evaluate(x), value(c, x), "shifting does not change a polynomial assigned before");
}
VF_CONTRACT(polynom_equality) {
    int n = 1 + vf_choose("degree", 3), m = 1 + vf_choose("degree2", 3);
    auto c = coefficients(n);
    std::vector<double> d;
    for (int i = 0; i < m; ++i) {
        double y = vf_real(c_name[5 - i], -3, 3);
        if (!vf_symbolic() && i < n && vf_bool("same")) y = c[i];
        d.push_back(y);
    }
    bool same = n == m;
    for (int i = 0; same && i < n; ++i) same = c[i] == d[i];
    Polynom p(c), q(d);
    vf_assert((p == q) == same, "equal exactly if all coefficients agree");
    vf_assert((p != q) == !same, "unequal exactly if some coefficient differs");
    std::unique_ptr<Polynom> k(p.clone());
    vf_assert(*k == p, "a copy equals the original");
    k->coeff_[0] += 1;
    vf_assert_eq(p.GetCoefficient()[0], c[0], "changing a copy leaves the original alone");
}

static const char* const x_name[] = {"x0", "h1", "h2", "h3", "h4"};
static const char* const y_name[] = {"y0", "y1", "y2", "y3", "y4"};
struct Table { std::vector<double> x, y; };
static Table table(int n) {
    Table t;
    double x = vf_real(x_name[0], -3, 3);
    for (int i = 0; i < n; ++i) {
        if (i) { double h = vf_real(x_name[i], 0.1, 2); vf_assume(h > 0); x += h; }
        t.x.push_back(x);
        t.y.push_back(vf_real(y_name[i], -3, 3));
    }
    return t;
}
// derivatives of the pieces at the support points
static double piece(Spline& s, int i, double x, int order) {
    Polynom p = s.GetFunctions()[i];
    for (int k = 0; k < order; ++k) p = p.GetDerivative();
    return p.evaluate(x);
}
static void away_from_zero(const std::vector<double>& x) {
    // Polynom::shift leaves polynomials alone for |shift| <= 1e-9 cm
    for (double v : x) vf_assume(std::fabs(v) > GEOMETRY_PRECISION);
}
VF_CONTRACT(linear_spline) {
    int n = 2 + vf_choose("points", 3);
    auto t = table(n);
    Linear_Spline s(t.x, t.y);
    vf_assert((int)s.GetNumberIntervalls() == n - 1 && (int)s.GetFunctions().size() == n - 1, "one interval between two support points");
    vf_assert_eq(s.GetDomain().first, t.x[0], "domain starts at the first support point");
    vf_assert_eq(s.GetDomain().second, t.x[n - 1], "domain ends at the last support point");
    for (int i = 0; i < n; ++i) near(s.evaluate(t.x[i]), t.y[i], "spline passes through every support point");
    double u = vf_real("u", 0, 1);
    vf_assume(u > 0); vf_assume(u < 1);
    int i = vf_choose("interval", 3);
    vf_assume(i < n - 1);
    double x = t.x[i] + u * (t.x[i + 1] - t.x[i]);
    vf_cover("interior");
    near(s.evaluate(x), t.y[i] + u * (t.y[i + 1] - t.y[i]), "linear between two support points");
}
VF_CONTRACT(cubic_spline_pieces) {
    int n = 2 + vf_choose("points", 3);
    auto t = table(n);
    away_from_zero(t.x);
    Cubic_Spline s(t.x, t.y);
    vf_cover("reached");
    vf_assert((int)s.GetNumberIntervalls() == n - 1 && (int)s.GetFunctions().size() == n - 1, "one interval between two support points");
    vf_assert_eq(s.GetDomain().first, t.x[0], "domain starts at the first support point");
    vf_assert_eq(s.GetDomain().second, t.x[n - 1], "domain ends at the last support point");
    for (int i = 0; i + 1 < n; ++i) {
        near(piece(s, i, t.x[i], 0), t.y[i], "piece starts at its support point");
        near(piece(s, i, t.x[i + 1], 0), t.y[i + 1], "piece ends at the next support point");
        vf_assert(s.GetFunctions()[i].GetCoefficient().size() == 4, "pieces are cubic");
    }
    for (int i = 1; i + 1 < n; ++i) {
        near(piece(s, i - 1, t.x[i], 1), piece(s, i, t.x[i], 1), "slope is continuous");
        near(piece(s, i - 1, t.x[i], 2), piece(s, i, t.x[i], 2), "curvature is continuous");
    }
    near(piece(s, 0, t.x[0], 2), 0, "curvature vanishes at the start");
    near(piece(s, n - 2, t.x[n - 1], 2), 0, "curvature vanishes at the end");
}
// a spline with arbitrary pieces (up to degree 2)
static Linear_Spline pieces(const std::vector<double>& x, std::vector<std::vector<double>>& c, int n) {
    static const char* const nm[] = {"p00", "p01", "p02", "p10", "p11", "p12", "p20", "p21", "p22"};
    std::vector<Polynom> p;
    for (int i = 0; i < n; ++i) {
        c.push_back({vf_real(nm[3 * i], -3, 3), vf_real(nm[3 * i + 1], -3, 3), vf_real(nm[3 * i + 2], -3, 3)});
        p.push_back(Polynom(c[i]));
    }
    return Linear_Spline(p, x);
}
VF_CONTRACT(spline_evaluate) {
    auto t = table(4);
    std::vector<std::vector<double>> c;
    auto s = pieces(t.x, c, 3);
    double x = vf_real("x", -5, 6);
    for (double b : t.x) vf_assume(x != b);
    vf_assert(s.GetNumberIntervalls() == 3, "one interval per polynomial");
    int i = x < t.x[1] ? 0 : x < t.x[2] ? 1 : 2;
    near(s.evaluate(x), value(c[i], x), "evaluates the piece whose interval contains the argument, the outermost ones beyond the ends");
    std::unique_ptr<Spline> k(s.clone());
    near(k->evaluate(x), value(c[i], x), "a copy evaluates like the original");
    auto cont = s.GetSplineContainer();
    vf_assert(cont.size() == 3, "one container per piece");
    for (int j = 0; j < 3; ++j) {
        vf_assert_eq(cont[j].domain.first, t.x[j], "container starts where its piece starts");
        vf_assert_eq(cont[j].domain.second, t.x[j + 1], "container ends where its piece ends");
        for (int q = 0; q < 3; ++q) vf_assert_eq(cont[j].coeff[q], c[j][q], "container holds the coefficients of its piece");
    }
}
VF_CONTRACT(spline_derivative) {
    auto t = table(4);
    std::vector<std::vector<double>> c;
    auto s = pieces(t.x, c, 3);
    double x = vf_real("x", -5, 6);
    for (double b : t.x) vf_assume(x != b);
    int i = x < t.x[1] ? 0 : x < t.x[2] ? 1 : 2;
    s.Derivative();
    near(s.evaluate(x), c[i][1] + 2 * c[i][2] * x, "derivative of the piece containing the argument");
}
VF_CONTRACT(spline_antiderivative) {
    auto t = table(4);
    std::vector<std::vector<double>> c;
    auto s = pieces(t.x, c, 3);
    double k = vf_real("constant", -3, 3), x = vf_real("x", -5, 6);
    for (double b : t.x) vf_assume(x != b);
    int i = x < t.x[1] ? 0 : x < t.x[2] ? 1 : 2;
    Linear_Spline original(s);
    s.Antiderivative(k);
    near(piece(s, 0, t.x[0], 0), k, "antiderivative starts at the given constant");
    for (int j = 1; j < 3; ++j) near(piece(s, j - 1, t.x[j], 0), piece(s, j, t.x[j], 0), "antiderivative is continuous");
    for (int j = 0; j < 3; ++j) near(piece(s, j, x, 1), value(c[j], x), "antiderivative differentiates back to the spline");
    s.Derivative();
    near(s.evaluate(x), original.evaluate(x), "differentiating the antiderivative gives the spline");
    near(original.evaluate(x), value(c[i], x), "a copy made before is not changed");
}
VF_CONTRACT(spline_equality) {
    auto t = table(3);
    std::vector<std::vector<double>> c;
    auto s = pieces(t.x, c, 2);
    double d = vf_real("d", -3, 3), e = vf_real("e", -3, 3);
    if (!vf_symbolic()) { if (vf_bool("sd")) d = c[1][2]; if (vf_bool("se")) e = t.x[1]; }
    vf_assert(s == *std::unique_ptr<Spline>(s.clone()), "a copy equals the original");
    Linear_Spline u(std::vector<Polynom>{Polynom(c[0]), Polynom(std::vector<double>{c[1][0], c[1][1], d})}, {t.x[0], e, t.x[2]});
    bool same = d == c[1][2] && e == t.x[1];
    vf_assert((s == u) == same, "equal exactly if all pieces and intervals agree");
    vf_assert((s != u) == !same, "unequal exactly if some piece or interval differs");
}
