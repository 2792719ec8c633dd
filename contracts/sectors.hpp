// arbitrary geometry, density and propagation utilities of sectors
#pragma once
#include "common.hpp"
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/Propagator.h"
#include "PROPOSAL/geometry/Geometry.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/density_distr/density_distr.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/propagation_utility/Displacement.h"
#include "PROPOSAL/propagation_utility/Time.h"
#include "PROPOSAL/propagation_utility/ContRand.h"
using namespace PROPOSAL;
using std::string; using std::to_string;

static string num(const char* n, int i) { return string(n) + char('0' + i); }
static double key(const Vector3D& p, double l = 0) { auto c = p.GetCartesianCoordinates(); return vf_uf4("key", c[0], c[1], c[2], l); }
static double key2(const Vector3D& p, const Vector3D& d) { return key(d, key(p)); }

// ------------------------------------------------------------- arbitrary geometry, density, utilities
struct AnyGeometry : public Geometry {
    Box box;
    double shift;
    AnyGeometry(double s = 0) : Geometry("any", Cartesian3D(0, 0, 0)), box(Cartesian3D(s, 0, 0), 12, 12, 12), shift(s) {}
    std::pair<double, double> DistanceToBorder(const Vector3D& p, const Vector3D& d) const override {
        if (!vf_symbolic()) return box.DistanceToBorder(p, d);
        double k = key2(p, d) + shift;
        return std::make_pair(vf_uf1("first", k), vf_uf1("second", k));
    }
    bool compare(const Geometry&) const override { return true; }
    void print(std::ostream&) const override {}
};
struct Everywhere : public Geometry {
    bool in;
    Everywhere(bool i = true) : Geometry("everywhere", Cartesian3D(0, 0, 0)), in(i) {}
    std::pair<double, double> DistanceToBorder(const Vector3D&, const Vector3D&) const override { return in ? std::make_pair(1e20, -1.) : std::make_pair(-1., -1.); }
    bool compare(const Geometry&) const override { return true; }
    void print(std::ostream&) const override {}
};
struct AnyDensity : public Density_distr {
    double id;
    AnyDensity(double i = 0) : Density_distr(1.), id(i) {}
    bool compare(const Density_distr&) const override { return true; }
    Density_distr* clone() const override { return new AnyDensity(id); }
    double Correct(const Vector3D& x, const Vector3D& d, double res, double border) const override { return vf_uf4("correct", key2(x, d), res, border, id); }
    double Integrate(const Vector3D&, const Vector3D&, double) const override { return 0; }
    double Calculate(const Vector3D& x, const Vector3D& d, double l) const override { return vf_uf3("grammage", key2(x, d), l, id); }
    double Evaluate(const Vector3D& x) const override { return vf_uf2("density", key(x), id); }
};
struct AnyDisplacement : public Displacement {
    AnyDisplacement() { lower_lim = 1; hash = 1; }
    double SolveTrackIntegral(double a, double b) override { return vf_uf2("solve", a, b); }
    double UpperLimitTrackIntegral(double a, double b) override { return vf_uf2("upper", a, b); }
};
struct AnyTime : public Time { double TimeElapsed(double a, double b, double c, double d) override { return vf_uf4("time", a, b, c, d); } };
struct AnyInteraction : public Interaction {
    AnyInteraction() : Interaction(std::make_shared<AnyDisplacement>(), crosssection_list_t(1, one())) {}
    struct Nothing : public CrossSectionBase {
        double CalculatedEdx(double) override { return 0; }
        double CalculatedE2dx(double) override { return 0; }
        double CalculatedNdx(double) override { return 0; }
        double CalculatedNdx(double, size_t) override { return 0; }
        double CalculateCumulativeCrosssection(double, size_t, double) override { return 0; }
        std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double) override { return {}; }
        double CalculateStochasticLoss(size_t, double, double) override { return 0; }
        double GetLowerEnergyLim() const override { return 1; }
        size_t GetHash() const noexcept override { return 5; }
        InteractionType GetInteractionType() const noexcept override { return InteractionType::Brems; }
        std::string GetParametrizationName() const noexcept override { return "nothing"; }
        std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return nullptr; }
    };
    static std::shared_ptr<CrossSectionBase> one() { return std::make_shared<Nothing>(); }
    double EnergyInteraction(double, double) override { return 0; }
    double EnergyIntegral(double, double) override { return 0; }
    double MeanFreePath(double) override { return 1; }
};
static PropagationUtility utility() {
    PropagationUtility::Collection c;
    c.displacement_calc = std::make_shared<AnyDisplacement>();
    c.time_calc = std::make_shared<AnyTime>();
    c.interaction_calc = std::make_shared<AnyInteraction>();
    return PropagationUtility(c);
}
static std::vector<Sector> whole_space() {
    std::vector<Sector> s;
    s.push_back(Sector(std::make_shared<Everywhere>(), utility(), std::make_shared<AnyDensity>()));
    return s;
}

